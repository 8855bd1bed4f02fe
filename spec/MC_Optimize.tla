----------------------------- MODULE MC_Optimize -----------------------------
(* Exhaustive, at the level of the specification: for every query over a     *)
(* small vocabulary whose goals may be evaluated in any order, the plan has  *)
(* the answers of the query, and contains the goals of the query.            *)
(* Every query is printed, to be replayed into the real optimiser.           *)
EXTENDS Solve, Optimize, Json

CONSTANTS MaxFlat, Small

Atom(p, as) == TupT(<<Str(p)>> \o as)
x == VarT("x")  y == VarT("y")  z == VarT("z")  w == VarT("w")  n == VarT("n")
a == Str("a")  b == Str("b")

Flat_ == IF Small THEN {Atom("p", <<x>>), Atom("q", <<x, y>>), Atom("q", <<y, z>>), Atom("p", <<z>>), Atom("resolve_name", <<Str("N"), y>>)}
         ELSE {Atom("p", <<x>>), Atom("p", <<y>>), Atom("q", <<x, y>>), Atom("q", <<y, z>>), Atom("q", <<z, x>>), Atom("p", <<z>>), Atom("q", <<x, a>>),
               Atom("resolve_name", <<Str("N"), y>>)}
Control == {<<>>, <<Atom("not", <<ListT(<<Atom("q", <<x, w>>)>>)>>)>>,
            <<Atom("count", <<n, ListT(<<Atom("q", <<y, w>>)>>)>>)>>,
            <<Atom("not", <<ListT(<<Atom("resolve_name", <<Str("N"), w>>), Atom("q", <<x, w>>)>>)>>)>>,
            <<Atom("scoped", <<ListT(<<Atom("p", <<w>>)>>)>>)>>,
            <<Atom(Disjunction, <<ListT(<<ListT(<<Atom("q", <<y, w>>), Atom("resolve_name", <<Str("N"), w>>)>>), ListT(<<Atom("p", <<y>>)>>)>>)>>)>>}
Sizes == {[p |-> <<[size |-> 10, args |-> <<5>>]>>, q |-> <<[size |-> 100, args |-> <<10, 20>>]>>, resolve_name |-> <<[size |-> 1000, args |-> <<2, 3>>]>>],
          [p |-> <<[size |-> 50, args |-> <<2>>]>>, q |-> <<[size |-> 20, args |-> <<10, 2>>]>>, resolve_name |-> <<[size |-> -1, args |-> <<>>]>>]}
Stored == << [kind |-> "table",
             rels |-> [p |-> [ar |-> 1, w |-> TRUE], q |-> [ar |-> 2, w |-> TRUE], resolve_name |-> [ar |-> 2, w |-> TRUE]],
             rows |-> [p |-> <<<<a>>, <<b>>>>, q |-> <<<<a, b>>, <<a, a>>, <<b, b>>>>, resolve_name |-> <<<<Str("N"), a>>>>]] >>

Queries == {fs \o c : fs \in UNION {[1..k -> Flat_] : k \in 1..MaxFlat}, c \in Control}
\* the nested goals use only variables that the others have bound, and their own
InDomain(q) == LET flat == {q[i] : i \in {j \in DOMAIN q : Pred(q[j]) \in {"p", "q", "resolve_name"}}} IN
               VarsOfSeq(q) \subseteq UNION {VarsOf(f) : f \in flat} \cup {"w", "n"}

VARIABLES query, roots, sizes
vars == <<query, roots, sizes>>
Init == /\ query \in {q \in Queries : InDomain(q)}
        /\ roots \in SUBSET ((VarsOfSeq(query) \cap {"x", "y"}))
        /\ sizes \in Sizes
        /\ PrintT("@@B " \o ToJson([goals |-> query, roots |-> roots, sizes |-> sizes]))
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

Project(r) == {Restrict(r[i], roots) : i \in DOMAIN r}
ThePlan == Plan(query, roots, sizes)
SameAnswers == LET r1 == SolveQ(query, NoB, Stored) r2 == SolveQ(ThePlan, NoB, Stored) IN
               ~r1.e /\ ~r2.e /\ Project(r1.r) = Project(r2.r)
\* the goals at any depth, apart from scoped, as a multiset
RECURSIVE Leaves(_)
Leaves(gs) == Flat([i \in DOMAIN gs |-> IF Pred(gs[i]) = "scoped" /\ gs[i].t[2].k = "l" THEN Leaves(gs[i].t[2].l)
                                        ELSE IF Pred(gs[i]) = "not" THEN <<Str("not")>> \o Leaves(gs[i].t[2].l)
                                        ELSE IF Pred(gs[i]) = Disjunction THEN <<Str("or")>> \o Flat([j \in DOMAIN gs[i].t[2].l |-> Leaves(gs[i].t[2].l[j].l)])
                                        ELSE <<gs[i]>>])
SameGoals == SameBag(Leaves(query), Leaves(ThePlan))
==============================================================================
