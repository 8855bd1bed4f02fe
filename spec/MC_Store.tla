------------------------------ MODULE MC_Store ------------------------------
(* All short histories of storing, learning and clearing, in a model with    *)
(* two sources for the same predicate: what is answered is determined by     *)
(* what was stored since the source was last cleared and by all rules that   *)
(* were learned. Every history is printed, to be replayed, and questioned    *)
(* after every step.                                                         *)
EXTENDS Solve, Json
CONSTANTS MaxLen
VARIABLES st, hist, log1, log2, copies, learned
vars == <<st, hist, log1, log2, copies, learned>>

A(p, as) == TupT(<<Str(p)>> \o as)
x == VarT("X")  y == VarT("Y")
a == Str("a")  c == Str("b")
Rel1 == [ar |-> 1, w |-> TRUE]
Start == << [kind |-> "table", rels |-> [p |-> Rel1], rows |-> [p |-> <<>>]],
            [kind |-> "infer", rules |-> <<>>],
            [kind |-> "table", rels |-> [p |-> Rel1, g |-> Rel1], rows |-> [p |-> <<>>, g |-> <<>>]] >>
Init == st = Start /\ hist = <<>> /\ log1 = <<>> /\ log2 = <<>> /\ copies = <<>> /\ learned = <<>>

Store(atoms) == [op |-> "solve", b |-> NoB, goals |-> <<A("store", <<ListT(atoms)>>)>>]
Solve_(goals, b) == [op |-> "solve", b |-> b, goals |-> goals]
Rule1 == <<A("learn_rule", <<A("h", <<x>>), ListT(<<A("p", <<x>>)>>)>>)>>
\* for every fact of p, a rule is learned about that fact
Rule2 == <<A("p", <<y>>), A("learn_rule", <<A("h", <<y>>), ListT(<<A("not", <<ListT(<<A("g", <<y>>)>>)>>)>>)>>)>>
Copy == <<A("p", <<x>>), A("store", <<ListT(<<A("g", <<x>>)>>)>>)>>

Stored(xs) == /\ log1' = log1 \o xs /\ log2' = log2 \o xs /\ UNCHANGED <<copies, learned>>
Known == Dedup(log1 \o log2)
Ops == { [op |-> Store(<<A("p", <<a>>)>>), n |-> "a"], [op |-> Store(<<A("p", <<c>>), A("p", <<a>>)>>), n |-> "ca"],
         [op |-> Store(<<A("p", <<c>>), A("nope", <<a>>), A("p", <<a>>)>>), n |-> "part"],
         [op |-> [op |-> "write", atom |-> A("p", <<c>>)], n |-> "c"],
         [op |-> [op |-> "clear", m |-> 1], n |-> "clear1"], [op |-> [op |-> "clear", m |-> 3], n |-> "clear3"],
         [op |-> Solve_(Copy, NoB), n |-> "copy"],
         [op |-> Solve_(Rule1, NoB), n |-> "rule"], [op |-> Solve_(Rule1, "X" :> a), n |-> "rulea"], [op |-> Solve_(Rule2, NoB), n |-> "rules"] }
Effect(n) ==
    CASE n = "a" -> Stored(<<a>>) [] n = "ca" -> Stored(<<c, a>>) [] n = "c" -> Stored(<<c>>)
      [] n = "part" -> Stored(<<c>>)   \* up to the atom that cannot be stored
      [] n = "clear1" -> log1' = <<>> /\ UNCHANGED <<log2, copies, learned>>
      [] n = "clear3" -> log2' = <<>> /\ copies' = <<>> /\ UNCHANGED <<log1, learned>>
      [] n = "copy" -> copies' = copies \o Known /\ UNCHANGED <<log1, log2, learned>>
      [] n = "rule" -> learned' = Append(learned, "all") /\ UNCHANGED <<log1, log2, copies>>
      [] n = "rulea" -> learned' = Append(learned, "if a") /\ UNCHANGED <<log1, log2, copies>>
      [] n = "rules" -> learned' = learned \o [i \in DOMAIN Known |-> Known[i].s] /\ UNCHANGED <<log1, log2, copies>>
Do(op) == CASE op.op = "solve" -> SolveQ(op.goals, op.b, st).s
            [] op.op = "write" -> WriteAtom(op.atom, st).s
            [] OTHER -> [st EXCEPT ![op.m].rows = [q \in DOMAIN @ |-> <<>>]]
Next == /\ Len(hist) < MaxLen
        /\ \E o \in Ops : /\ st' = Do(o.op) /\ Effect(o.n) /\ hist' = Append(hist, o.op)
                          /\ IF Len(hist') = MaxLen THEN PrintT("@@B " \o ToJson(hist')) ELSE TRUE
Spec == Init /\ [][Next]_vars

Ask(goals) == SolveQ(goals, NoB, st)
Values_(r) == [i \in DOMAIN r |-> r[i]["X"]]
One(l) == CASE l = "all" -> Range(Known) [] l = "if a" -> IF InSeq(a, Known) THEN {a} ELSE {}
            [] OTHER -> IF InSeq(Str(l), copies) THEN {} ELSE {Str(l)}
Answers ==
    LET r == Ask(<<A("p", <<x>>)>>)  g == Ask(<<A("g", <<x>>)>>)  h == Ask(<<A("h", <<x>>)>>) IN
    /\ Values_(r.r) = Known /\ r.s = st
    /\ Values_(g.r) = Dedup(copies)
    /\ (learned = <<>>) = h.e
    /\ learned # <<>> => Range(Values_(h.r)) = UNION {One(learned[i]) : i \in DOMAIN learned}
Facts_ == st[1].rows["p"] = [i \in DOMAIN log1 |-> <<log1[i]>>] /\ st[3].rows["p"] = [i \in DOMAIN log2 |-> <<log2[i]>>]
==============================================================================
