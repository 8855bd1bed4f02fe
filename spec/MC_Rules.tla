------------------------------ MODULE MC_Rules ------------------------------
(* Every small program of inference rules, over small fact bases: what a     *)
(* query derives, goal-directed and with the variables of caller and rules   *)
(* side by side, are the consequences in the least fixpoint of the rules.    *)
(* Every query is printed, to be replayed.                                   *)
EXTENDS Solve, Json
CONSTANTS MaxRules, Some
VARIABLES facts, rules, goals, b
vars == <<facts, rules, goals, b>>

A(p, as) == TupT(<<Str(p)>> \o as)
x == VarT("X")  y == VarT("Y")  z == VarT("Z")
a == Str("a")  c == Str("b")  d == Str("c")
Dom == {a, c, d}

R(h, body) == [head |-> h, body |-> body]
Vocabulary == {
    R(A("r", <<x>>), <<A("p", <<x>>)>>),
    R(A("r", <<x>>), <<A("q", <<x, y>>), A("r", <<y>>)>>),
    R(A("r", <<y>>), <<A("q", <<x, y>>)>>),
    R(A("r", <<a>>), <<>>),
    R(A("s", <<x, y>>), <<A("q", <<x, z>>), A("s", <<z, y>>)>>),
    R(A("s", <<x, y>>), <<A("q", <<x, y>>)>>),
    R(A("s", <<x, x>>), <<A("p", <<x>>)>>),
    R(A("s", <<y, x>>), <<A("q", <<x, y>>), A("not", <<ListT(<<A("p", <<y>>)>>)>>)>>),
    R(A("s", <<z, c>>), <<A("r", <<z>>)>>),
    R(A("q", <<y, d>>), <<A("p", <<y>>)>>)}   \* a stored relation with a rule
Chain == {<<a, c>>, <<c, d>>, <<a, d>>}
Bases == IF Some THEN {[p |-> {a, d}, q |-> {<<a, c>>, <<c, d>>}], [p |-> {c}, q |-> {<<a, c>>}], [p |-> {}, q |-> Chain], [p |-> {d}, q |-> {}], [p |-> {a, c, d}, q |-> {<<a, d>>}]}
         ELSE {[p |-> P, q |-> Q] : P \in {{}, {a}, {c, d}, {a, c, d}}, Q \in SUBSET Chain}
Starts == {NoB, "X" :> c, "Z" :> a, ("Y" :> d) @@ ("Z" :> c)}
Queries == {<<A("r", <<x>>)>>, <<A("r", <<VarT("E")>>)>>, <<A("r", <<a>>)>>, <<A("s", <<x, y>>)>>, <<A("s", <<y, x>>)>>, <<A("s", <<z, z>>)>>,
            <<A("s", <<a, y>>)>>, <<A("s", <<x, d>>)>>, <<A("r", <<x>>), A("s", <<x, z>>)>>, <<A("s", <<y, z>>), A("s", <<z, x>>)>>, <<A("q", <<x, y>>)>>,
            <<A("q", <<z, x>>), A("r", <<y>>)>>}

RECURSIVE AsSeq(_)
AsSeq(S) == IF S = {} THEN <<>> ELSE LET e == CHOOSE e \in S : TRUE IN <<e>> \o AsSeq(S \ {e})
Stored == << [kind |-> "table", rels |-> [p |-> [ar |-> 1, w |-> TRUE], q |-> [ar |-> 2, w |-> TRUE]],
              rows |-> [p |-> [i \in 1..Cardinality(facts.p) |-> <<AsSeq(facts.p)[i]>>], q |-> AsSeq(facts.q)]],
             [kind |-> "infer", rules |-> rules] >>

\* programs in which every recursion ends: q only grows by edges into d, and d has no way out
Ends == (\E i \in DOMAIN rules : Pred(rules[i].head) = "q") =>
            ~ (d \in facts.p) /\ \A e \in facts.q : e[1] # d
Init == /\ facts \in Bases
        /\ rules \in {<<>>} \cup UNION {{s \in [1..k -> Vocabulary] : \A i, j \in 1..k : i # j => s[i] # s[j]} : k \in 1..MaxRules}
        /\ goals = <<>> /\ b = NoB
        /\ Ends
Next == /\ goals = <<>>
        /\ goals' \in Queries
        /\ b' \in Starts
        /\ UNCHANGED <<facts, rules>>
        /\ PrintT("@@B " \o ToJson([facts |-> Stored[1].rows, rules |-> rules, goals |-> goals', b |-> b']))
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* the least fixpoint, as ground atoms <<predicate, values>>
Base == {<<"p", <<v>>>> : v \in facts.p} \cup {<<"q", v>> : v \in facts.q}
Ground(t, m) == <<Pred(t), [i \in DOMAIN Args(t) |-> Subst(Args(t)[i], m)]>>
True(t, m, F) == IF Pred(t) = "not" THEN \A i \in DOMAIN t.t[2].l : Ground(t.t[2].l[i], m) \notin Base  \* stratified: p is not derived
                 ELSE Ground(t, m) \in F
Derived(F) == F \cup UNION {LET vs == VarsOf(rules[i].head) \cup VarsOfSeq(rules[i].body) IN
                            {Ground(rules[i].head, m) : m \in {m \in [vs -> Dom] : \A j \in DOMAIN rules[i].body : True(rules[i].body[j], m, F)}}
                            : i \in DOMAIN rules}
RECURSIVE Fixpoint(_)
Fixpoint(F) == LET G == TLCEval(Derived(F)) IN IF G = F THEN F ELSE Fixpoint(G)
Defined == {"p", "q"} \cup {Pred(rules[i].head) : i \in DOMAIN rules}

\* reached goals must be defined somewhere
RECURSIVE Answers(_, _, _)
Answers(S, gs, F) ==
    IF gs = <<>> THEN S
    ELSE Answers(UNION {{m @@ e : e \in {e \in [VarsOf(gs[1]) \ DOMAIN m -> Dom] : Ground(gs[1], m @@ e) \in F}} : m \in S}, Tail(gs), F)
Mentioned == {Pred(goals[i]) : i \in DOMAIN goals} \cup (UNION {{Pred(rules[i].body[j]) : j \in DOMAIN rules[i].body} : i \in DOMAIN rules} \ {"not"})
Consequences ==
    goals # <<>> /\ Mentioned \subseteq Defined =>
        LET r == SolveQ(goals, b, Stored)
            F == Fixpoint(Base)
        IN ~r.e /\ Range(r.r) = Answers({b}, goals, F)
==============================================================================
