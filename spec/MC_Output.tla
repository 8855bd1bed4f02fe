------------------------------ MODULE MC_Output ------------------------------
(* All short histories of storing and reading: a read depends only on what   *)
(* was stored since the last one, whether or not that one failed.            *)
EXTENDS Generate, Json
CONSTANTS MaxLen
VARIABLES st, since, hist
vars == <<st, since, hist>>

A1(p, x) == TupT(<<Str(p), x>>)
W(f) == [t |-> "w", p |-> "", ar |-> <<>>, f |-> f, o |-> FALSE, j |-> " "]
R(p, ar, o) == [t |-> "r", p |-> p, ar |-> ar, f |-> "", o |-> o, j |-> " "]
Rule(lhs, ar, rhs, cond, post) == [lhs |-> lhs, ar |-> ar, rhs |-> rhs, cond |-> cond, has |-> cond # <<>>, exec |-> "", post |-> post]
Grammar == <<
    Rule("s", <<>>, << R("value", <<"E1">>, FALSE) >>, << A1("output_type", Str("t1")), A1("output_value", VarT("E1")) >>, ""),
    Rule("s", <<>>, << R("np", <<"E1">>, FALSE), R("np", <<"E1">>, TRUE), R("np", <<"E1">>, FALSE) >>, << A1("output_type", Str("t2")), A1("output_value", VarT("E1")) >>, ""),
    Rule("np", <<"E1">>, << W("one") >>, << A1("n", VarT("E1")) >>, ""),
    Rule("np", <<"E1">>, << R("text", <<"E1">>, FALSE) >>, << A1("n", VarT("E1")) >>, "wrap")>>
Rels == [p \in {"output_type", "output_value"} |-> [ar |-> 1, w |-> TRUE]]
Fresh0 == << [kind |-> "table", rels |-> Rels, rows |-> [p \in DOMAIN Rels |-> <<>>]],
             [kind |-> "table", rels |-> [n |-> [ar |-> 1, w |-> TRUE]], rows |-> [n |-> << <<Int_(1)>> >>]] >>
Stores == {A1("output_type", Str("t1")), A1("output_type", Str("t2")), A1("output_value", Int_(1)), A1("output_value", Int_(2))}

RECURSIVE Replayed(_, _)
Replayed(xs, s) == IF xs = <<>> THEN s ELSE Replayed(Tail(xs), WriteAtom(xs[1], s).s)
Result(r) == [e |-> r.e, v |-> r.v]

Init == st = Fresh0 /\ since = <<>> /\ hist = <<>>
DoStore == \E a \in Stores : /\ st' = WriteAtom(a, st).s
                             /\ since' = Append(since, a)
                             /\ hist' = Append(hist, [op |-> "write", atom |-> a])
DoRead == /\ hist # <<>>
          /\ st' = Read(Grammar, <<>>, 1, st).s
          /\ since' = <<>>
          /\ hist' = Append(hist, [op |-> "read"])
          /\ PrintT("@@B " \o ToJson([ops |-> hist', rules |-> Grammar, mods |-> Fresh0]))
Next == Len(hist) < MaxLen /\ (DoStore \/ DoRead)
Spec == Init /\ [][Next]_vars

OnlySince == Result(Read(Grammar, <<>>, 1, st)) = Result(Read(Grammar, <<>>, 1, Replayed(since, Fresh0)))
Consumed == \A p \in DOMAIN Rels : Read(Grammar, <<>>, 1, st).s[1].rows[p] = <<>>
OthersKept == Read(Grammar, <<>>, 1, st).s[2] = Fresh0[2]
==============================================================================
