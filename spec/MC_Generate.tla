----------------------------- MODULE MC_Generate -----------------------------
(* All grammars of a few rules from a vocabulary, and all contents of the    *)
(* buffer: the sentence that Generate defines by recursion is the one that a *)
(* machine writes which has an agenda, and picks for every call the first    *)
(* rule not used yet that applies, or else the last one that applies.        *)
(* Every grammar with its contents is printed, to be replayed.               *)
EXTENDS Generate, Json
CONSTANTS MaxRules, Reverse
VARIABLES g, st, agenda, out, used, status
vars == <<g, st, agenda, out, used, status>>

A1(p, x) == TupT(<<Str(p), x>>)
W(f) == [t |-> "w", p |-> "", ar |-> <<>>, f |-> f, o |-> FALSE, j |-> " "]
R(p, ar, o, j) == [t |-> "r", p |-> p, ar |-> ar, f |-> "", o |-> o, j |-> j]
Rule(lhs, ar, rhs, cond, post) == [lhs |-> lhs, ar |-> ar, rhs |-> rhs, cond |-> cond, has |-> cond # <<>>, exec |-> "", post |-> post]
E1 == VarT("E1")  E2 == VarT("E2")
T1 == A1("output_type", Str("t1"))
Value == A1("output_value", E1)
Vocabulary == <<
    Rule("s", <<>>, <<R("np", <<"E1">>, FALSE, " "), R("np", <<"E1">>, FALSE, "+"), R("np", <<"E1">>, FALSE, " ")>>, <<Value>>, ""),
    Rule("s", <<>>, <<R("text", <<"E1">>, FALSE, " "), W("!")>>, <<T1, Value>>, "wrap"),
    Rule("s", <<>>, <<W("a"), R("np", <<"E3">>, TRUE, " "), R("vp", <<"E1">>, TRUE, " ")>>, <<T1>>, ""),
    Rule("s", <<>>, <<W("none"), R("vp", <<"E1">>, FALSE, " ")>>, <<>>, ""),
    Rule("np", <<"E1">>, <<W("one")>>, <<A1("n", E1)>>, ""),
    Rule("np", <<"E2">>, <<R("text", <<"E2">>, FALSE, " ")>>, <<>>, "wrap"),
    Rule("np", <<"E1">>, <<R("text", <<"E1">>, FALSE, " "), R("np", <<"E2">>, TRUE, "+")>>, <<TupT(<<Str("next"), E1, E2>>)>>, ""),
    Rule("np", <<"E1">>, <<W("not"), R("text", <<"E1">>, FALSE, " ")>>, <<A1("not", ListT(<<A1("n", E1)>>))>>, ""),
    Rule("vp", <<"E3">>, <<W("v"), R("np", <<"E3">>, FALSE, " ")>>, <<>>, ""),
    Rule("vp", <<"E1">>, <<R("np", <<"E2">>, FALSE, " "), R("text", <<"E1">>, FALSE, " ")>>, <<A1("output_value", E1), TupT(<<Str("next"), E1, E2>>)>>, "")>>
Rels == [p \in {"output_type", "output_value"} |-> [ar |-> 1, w |-> TRUE]]
World == << [kind |-> "table", rels |-> Rels, rows |-> [p \in DOMAIN Rels |-> <<>>]],
            [kind |-> "table", rels |-> [n |-> [ar |-> 1, w |-> TRUE], next |-> [ar |-> 2, w |-> TRUE]],
                               rows |-> [n |-> << <<Int_(1)>> >>, next |-> << <<Int_(1), Int_(2)>> >>]] >>
Contents == {<<>>, <<T1>>, <<A1("output_value", Int_(1))>>, <<T1, A1("output_value", Int_(1))>>, <<T1, A1("output_value", Int_(2))>>,
             <<A1("output_value", Int_(2)), A1("output_value", Int_(1))>>}
RECURSIVE Filled(_, _)
Filled(xs, s) == IF xs = <<>> THEN s ELSE Filled(Tail(xs), WriteAtom(xs[1], s).s)
Backwards(s) == [i \in DOMAIN s |-> s[Len(s) + 1 - i]]
Upward == {s \in UNION {[1..k -> 1..Len(Vocabulary)] : k \in 1..MaxRules} : \A i \in 1..(Len(s) - 1) : s[i] < s[i + 1]}
Grammars == {s \in Upward : Vocabulary[s[1]].lhs = "s"}
Chosen == [i \in DOMAIN g |-> Vocabulary[g[i]]]

Init == g = <<>> /\ st = <<>> /\ agenda = <<>> /\ out = <<>> /\ used = {} /\ status = "choose"
Call(cat, vals, opt) == [k |-> "call", cat |-> cat, vals |-> vals, opt |-> opt]
Start == /\ status = "choose"
         /\ \E s \in Grammars, c \in Contents, r \in IF Reverse THEN {TRUE, FALSE} ELSE {FALSE} :
               /\ g' = IF r THEN Backwards(s) ELSE s
               /\ st' = Filled(c, World)
               /\ PrintT("@@B " \o ToJson([rules |-> [i \in DOMAIN g' |-> Vocabulary[g'[i]]], mods |-> World,
                                           ops |-> [i \in DOMAIN c |-> [op |-> "write", atom |-> c[i]]]]))
         /\ agenda' = <<Call("s", <<>>, FALSE)>> /\ out' = <<>> /\ used' = {} /\ status' = "run"

\* the machine
Bind(names, vals) == [n \in Range(names) |-> vals[CHOOSE i \in DOMAIN names : names[i] = n /\ \A j \in DOMAIN names : names[j] = n => i <= j]]
Answers(i, vals) == IF Chosen[i].has THEN SolveQ(Chosen[i].cond, Bind(Chosen[i].ar, vals), st).r ELSE <<Bind(Chosen[i].ar, vals)>>
Applicable(cat, vals) == {i \in DOMAIN g : Chosen[i].lhs = cat /\ Len(Chosen[i].ar) = Len(vals) /\ Answers(i, vals) # <<>>}
Least(S) == CHOOSE x \in S : \A y \in S : x <= y
Most(S) == CHOOSE x \in S : \A y \in S : x >= y
Item(c, b) == LET vals == [a \in DOMAIN c.ar |-> IF c.ar[a] \in DOMAIN b THEN b[c.ar[a]] ELSE Str("")] IN
              CASE c.t = "w" -> [k |-> "say", f |-> c.f]
                [] c.p = "text" -> [k |-> "say", f |-> TextOf(vals[1], <<>>)]
                [] OTHER -> Call(c.p, vals, c.o)
WithSpaces(items, rhs) == Flat([i \in DOMAIN items |-> IF i > 1 /\ rhs[i].j = " " THEN <<[k |-> "say", f |-> " "], items[i]>> ELSE <<items[i]>>])
Step ==
    /\ status = "run"
    /\ IF agenda = <<>> THEN status' = "done" /\ UNCHANGED <<agenda, out, used>>
       ELSE LET top == agenda[1]  rest == Tail(agenda) IN
            CASE top.k = "say" -> out' = Append(out, top.f) /\ agenda' = rest /\ UNCHANGED <<used, status>>
              [] top.k = "close" -> /\ out' = SubSeq(out, 1, top.from) \o <<"[" \o Concat(SubSeq(out, top.from + 1, Len(out)), 1) \o "]">>
                                    /\ agenda' = rest /\ UNCHANGED <<used, status>>
              [] OTHER ->
                   LET S == Applicable(top.cat, top.vals) IN
                   IF S = {} THEN IF top.opt THEN agenda' = rest /\ UNCHANGED <<out, used, status>>
                                  ELSE status' = "failed" /\ UNCHANGED <<agenda, out, used>>
                   ELSE LET i == IF S \ used # {} THEN Least(S \ used) ELSE Most(S)
                            b == Answers(i, top.vals)[1]
                            rhs == Chosen[i].rhs
                        IN /\ agenda' = WithSpaces([k \in DOMAIN rhs |-> Item(rhs[k], b)], rhs)
                                        \o (IF Chosen[i].post = "wrap" THEN <<[k |-> "close", from |-> Len(out)]>> ELSE <<>>) \o rest
                           /\ used' = used \cup {i}
                           /\ UNCHANGED <<out, status>>
    /\ UNCHANGED <<g, st>>
Next == Start \/ Step
Spec == Init /\ [][Next]_vars

Agree == status \in {"done", "failed"} =>
    \E r \in {Gen(Chosen, <<>>, "s", <<>>, FALSE, <<>>, st)} :
       /\ ~r.u
       /\ r.e = (status = "failed")
       /\ status = "done" => r.v = Str(Concat(out, 1)) /\ Range(r.used) = used
       /\ r.s = st    \* conditions that only ask change nothing
\* it ends
Ends == Len(out) < 40 /\ Len(agenda) < 40
==============================================================================
