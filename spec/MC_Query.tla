------------------------------ MODULE MC_Query -------------------------------
(* Every query of a few goals over a small vocabulary, all small fact bases: *)
(* the answers of the goal interpreter, which works depth first with         *)
(* bindings and rows, are those of the relational reading of the query: the  *)
(* set of bindings grows goal by goal, and a nested query is judged by       *)
(* whether it has an answer. Every query is printed, to be replayed.         *)
EXTENDS Solve, Json
CONSTANTS MaxGoals, Level
VARIABLES facts, goals, b
vars == <<facts, goals, b>>

A(p, as) == TupT(<<Str(p)>> \o as)
x == VarT("X")  y == VarT("Y")  z == VarT("Z")
a == Str("a")  c == Str("b")
Dom == {a, c}

Flat_ == {A("p", <<x>>), A("p", <<y>>), A("p", <<a>>), A("q", <<x, y>>), A("q", <<y, x>>), A("q", <<x, x>>), A("q", <<y, z>>), A("q", <<x, c>>)}
Body_ == {<<A("p", <<x>>)>>, <<A("q", <<x, y>>)>>, <<A("q", <<x, y>>), A("p", <<y>>)>>}
Nested == {A("not", <<ListT(g)>>) : g \in Body_} \cup {A("scoped", <<ListT(g)>>) : g \in Body_}
          \cup {A(Disjunction, <<ListT(<<ListT(<<A("q", <<x, y>>)>>), ListT(<<A("p", <<x>>)>>)>>)>>),
                A(Disjunction, <<ListT(<<ListT(<<A("p", <<x>>), A("q", <<y, x>>)>>), ListT(<<A("p", <<y>>)>>), ListT(<<A("p", <<x>>)>>)>>)>>),
                A("all", <<x, ListT(<<A("p", <<x>>)>>), ListT(<<A("q", <<x, y>>)>>)>>),
                A("all", <<y, ListT(<<A("q", <<x, y>>)>>), ListT(<<A("p", <<y>>)>>)>>),
                A("none", <<ListT(<<A("p", <<y>>), A("not", <<ListT(<<A("q", <<y, x>>)>>)>>)>>)>>),
                A("count", <<z, ListT(<<A("q", <<x, y>>)>>)>>),
                A("det_greater_than", <<ListT(<<A("q", <<x, y>>)>>), Int_(1)>>),
                A("det_equals", <<ListT(<<A("q", <<y, z>>)>>), Int_(1)>>),
                A("equals", <<x, y>>), A("equals", <<y, a>>), A("let", <<y, c>>),
                A("find_all", <<Str("Y"), ListT(<<A("q", <<x, y>>)>>), z>>), A("find_one", <<Str("Y"), ListT(<<A("q", <<x, y>>)>>), z>>)}
\* fact bases: any p and q on the domain
Bases == {[p |-> P, q |-> Q] : P \in SUBSET Dom, Q \in SUBSET (Dom \X Dom)}
SomeBases == {[p |-> {a, c}, q |-> {<<a, a>>, <<a, c>>, <<c, c>>}], [p |-> {c}, q |-> {<<a, c>>, <<c, a>>}], [p |-> {}, q |-> {<<a, a>>}],
              [p |-> {a}, q |-> {<<a, a>>, <<c, a>>}], [p |-> {a, c}, q |-> {}]}
Starts == {NoB, "X" :> a, "Y" :> c} \cup IF Level = "flat" THEN {("X" :> Str("other"))} ELSE {}

Seqs(S, n) == UNION {[1..k -> S] : k \in 1..n}
Queries == IF Level = "flat" THEN Seqs(Flat_, MaxGoals)
           ELSE {q \in Seqs(Flat_ \cup Nested, MaxGoals) : \E i \in DOMAIN q : q[i] \in Nested}

\* some order of the rows
RECURSIVE AsSeq(_)
AsSeq(S) == IF S = {} THEN <<>> ELSE LET e == CHOOSE e \in S : TRUE IN <<e>> \o AsSeq(S \ {e})
Stored(f) == << [kind |-> "table", rels |-> [p |-> [ar |-> 1, w |-> TRUE], q |-> [ar |-> 2, w |-> TRUE]],
                 rows |-> [p |-> [i \in 1..Cardinality(f.p) |-> <<AsSeq(f.p)[i]>>], q |-> AsSeq(f.q)]] >>

Init == /\ facts \in (IF Level = "flat" THEN Bases ELSE SomeBases)
        /\ goals = <<>>
        /\ b \in Starts
Next == /\ goals = <<>>
        /\ goals' \in Queries
        /\ UNCHANGED <<facts, b>>
        /\ PrintT("@@B " \o ToJson([facts |-> Stored(facts)[1].rows, goals |-> goals', b |-> b]))
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* the relational reading: from a set of bindings to a set of bindings
Val(t, m) == IF IsVar(t) THEN m[t.n] ELSE t
Vars(as) == {as[i].n : i \in {j \in DOMAIN as : IsVar(as[j])}}
Holds(p, vs) == IF p = "p" THEN vs[1] \in facts.p ELSE vs \in facts.q
RECURSIVE Reading(_, _), OneGoal(_, _)
Reading(S, gs) == IF gs = <<>> THEN S ELSE Reading(UNION {OneGoal(m, gs[1]) : m \in S}, Tail(gs))
Extended(m, ns) == {m @@ e : e \in [ns \ DOMAIN m -> Dom]}
Error == "!" :> None
OneGoal(m, g) ==
    LET p == Pred(g)  as == Args(g)
        Of(i) == Reading({m}, as[i].l)
        Keep(ok) == IF ok THEN {m} ELSE {}
        Bind(n, v) == IF n \in DOMAIN m THEN {m} ELSE {Ext(m, n, v)}
    IN CASE p \in {"p", "q"} -> {e \in Extended(m, Vars(as)) : Holds(p, [i \in DOMAIN as |-> Val(as[i], e)])}
         [] p = Disjunction -> LET ds == as[1].l
                                   ok == {i \in DOMAIN ds : Reading({m}, ds[i].l) # {}}
                               IN IF ok = {} THEN {} ELSE Reading({m}, ds[MinOf(ok)].l)
         [] p \in {"not", "none"} -> Keep(Of(1) = {})
         [] p = "scoped" -> Keep(Of(1) # {})
         [] p = "all" -> LET es == {e[as[1].n] : e \in Of(2)} IN
                         IF \A e \in es : Reading({Ext(m, as[1].n, e)}, as[3].l) # {}
                         THEN IF es = {} THEN {} ELSE IF as[1].n \in DOMAIN m THEN {m} ELSE {Ext(m, as[1].n, e) : e \in es}
                         ELSE {}
         [] p = "count" -> Bind(as[1].n, Int_(Cardinality(Of(2))))
         [] p = "det_greater_than" -> Keep(Cardinality(Of(1)) > as[2].i)
         [] p = "det_equals" -> Keep(Cardinality(Of(1)) = as[2].i)
         [] p = "equals" -> LET known == {i \in 1..2 : ~IsVar(as[i]) \/ as[i].n \in DOMAIN m} IN
                            IF known = {} THEN {Error}
                            ELSE IF Cardinality(known) = 2 THEN Keep(Val(as[1], m) = Val(as[2], m))
                            ELSE LET k == CHOOSE k \in known : TRUE IN {Ext(m, as[3 - k].n, Val(as[k], m))}
         [] p = "let" -> Bind(as[1].n, as[2])
         [] OTHER -> \* find_all, find_one: which order is not said
                     LET vs == {e[as[1].s] : e \in {e \in Of(2) : as[1].s \in DOMAIN e}}
                         perms == {[i \in 1..Cardinality(vs) |-> f[i]] : f \in {f \in [1..Cardinality(vs) -> vs] : Range(f) = vs}}
                     IN IF as[3].n \in DOMAIN m THEN (IF p = "find_one" /\ vs = {} THEN {} ELSE {m})
                        ELSE IF p = "find_one" THEN {Ext(m, as[3].n, v) : v \in vs}
                        ELSE {Ext(m, as[3].n, ListT(s)) : s \in perms}

\* find_all and find_one: one of the orders
Loose == \E i \in DOMAIN goals : Pred(goals[i]) \in {"find_all", "find_one"}
\* a repeated variable in 'equals' with both sides unbound is an error wherever it is reached
Raises(S) == Error \in S
RECURSIVE Reach(_, _)
Reach(S, gs) == IF gs = <<>> \/ Raises(S) THEN S ELSE Reach(UNION {OneGoal(m, gs[1]) : m \in S}, Tail(gs))

Result == SolveQ(goals, b, Stored(facts))
AsReading ==
    LET r == Result  s == Reach({b}, goals) IN
    IF r.e THEN Raises(s)
    ELSE IF Raises(s) THEN Loose /\ Range(r.r) \subseteq s
    ELSE /\ ~r.e
         /\ IF Loose THEN Range(r.r) \subseteq s ELSE Range(r.r) = s
         /\ r.s = Stored(facts)
Distinct == LET r == Result IN r.e \/ Len(r.r) = Cardinality(Range(r.r))
==============================================================================
