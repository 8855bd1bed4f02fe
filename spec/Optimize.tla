------------------------------ MODULE Optimize -------------------------------
(* The query optimiser.                                                      *)
(* sizes: predicate -> sequence of [size, args], one for each relation of    *)
(* that name, in module order; a size of -1 is not declared.                 *)
(* The plan is Isolate(Sort(Front(query))).                                  *)
EXTENDS Util

ResolveName == "resolve_name"
IsAtom(t) == t.k = "t" /\ t.t # <<>> /\ t.t[1].k = "s"

-----------------------------------------------------------------------------
\* lifting of name resolutions: <<the name resolutions in it, what remains of it>>
RECURSIVE LiftList(_), LiftAtom(_)
LiftItem(t) == IF t.k = "l" THEN LET p == LiftList(t.l) IN <<p[1], <<ListT(p[2])>>>>
               ELSE IF IsAtom(t) /\ t.t[1].s = ResolveName THEN <<<<t>>, <<>>>>
               ELSE IF t.k = "t" THEN LET p == LiftAtom(t) IN <<p[1], <<p[2]>>>>
               ELSE <<<<>>, <<t>>>>
LiftList(xs) == LET ps == TLCEval([i \in DOMAIN xs |-> LiftItem(xs[i])]) IN
                <<Flat([i \in DOMAIN ps |-> ps[i][1]]), Flat([i \in DOMAIN ps |-> ps[i][2]])>>
\* only the lists of goals directly in an atom
LiftAtom(a) == LET ps == TLCEval([i \in DOMAIN a.t |-> IF a.t[i].k = "l" THEN LiftItem(a.t[i]) ELSE <<<<>>, <<a.t[i]>>>>]) IN
               <<Flat([i \in DOMAIN ps |-> ps[i][1]]), TupT([i \in DOMAIN ps |-> ps[i][2][1]])>>
Front(goals) == LET p == LiftList(goals) IN p[1] \o p[2]

-----------------------------------------------------------------------------
\* cost: [inf, n, d]
Infinite == [inf |-> TRUE, n |-> 0, d |-> 1]
CostLess(a, b) == IF a.inf THEN FALSE ELSE IF b.inf THEN TRUE ELSE a.n * b.d < b.n * a.d

RECURSIVE ProdFrom(_, _, _, _)
\* the product of the sizes of the bound arguments
ProdFrom(args, sz, bound, i) ==
    IF i > Len(args) THEN 1
    ELSE ProdFrom(args, sz, bound, i + 1) *
         (IF sz[i] # -1 /\ args[i].k \notin {"l", "t"} /\ (args[i].k = "v" => args[i].n \in bound) THEN sz[i] ELSE 1)

RelCost(rel, args, bound) ==
    IF rel.size = -1 THEN Infinite
    ELSE [inf |-> FALSE, n |-> rel.size, d |-> ProdFrom(args, rel.args, bound, 1)]

Cost(atom, bound, sizes) ==
    IF Pred(atom) \notin DOMAIN sizes THEN Infinite
    ELSE LET rs == sizes[Pred(atom)]
             cs == {RelCost(rs[i], Args(atom), bound) : i \in DOMAIN rs}
         IN CHOOSE c \in cs : \A d \in cs : ~CostLess(c, d)

\* a relation that declares a size but not that of each argument is an error
RECURSIVE Malformed(_, _)
Malformed(goals, sizes) ==
    \E k \in DOMAIN goals : LET t == goals[k] IN
    \/ /\ Pred(t) \in DOMAIN sizes
       /\ \E i \in DOMAIN sizes[Pred(t)] : sizes[Pred(t)][i].size # -1 /\ Len(sizes[Pred(t)][i].args) # Len(Args(t))
    \/ \E i \in DOMAIN t.t : t.t[i].k = "l" /\ t.t[i].l # <<>> /\ t.t[i].l[1].k = "t" /\ Malformed(t.t[i].l, sizes)

RECURSIVE SortFrom(_, _, _, _)
SortArg(x, bound, sizes) ==
    IF x.k = "l" /\ x.l # <<>> /\ x.l[1].k = "t" THEN ListT(SortFrom(<<>>, x.l, bound, sizes)) ELSE x
SortFrom(done, todo, bound, sizes) ==
    IF todo = <<>> THEN done
    ELSE LET cs == TLCEval([i \in DOMAIN todo |-> Cost(todo[i], bound, sizes)])
             \* the remaining goals are ranked by cost; equal ones stay as they were ranked before
             rank == SortSeq([i \in DOMAIN todo |-> i], LAMBDA i, j : CostLess(cs[i], cs[j]) \/ (~CostLess(cs[j], cs[i]) /\ i < j))
             ranked == TLCEval([i \in DOMAIN todo |-> todo[rank[i]]])
             a == TLCEval(TupT([i \in DOMAIN ranked[1].t |-> SortArg(ranked[1].t[i], bound, sizes)]))
         IN SortFrom(Append(done, a), Tail(ranked), bound \cup VarsOf(a), sizes)
Sort(goals, sizes) == SortFrom(<<>>, goals, {}, sizes)

-----------------------------------------------------------------------------
\* the connected components of goals: goals i and j belong together if they share a variable, directly or through others
RECURSIVE Reach(_, _, _)
Reach(S, vs, all) == LET T == {j \in all : \E i \in S : i = j \/ vs[i] \cap vs[j] # {}} IN
                     IF T = S THEN S ELSE Reach(T, vs, all)

\* the variables that occur in a term by name
RECURSIVE NamedIn(_, _)
NamedIn(t, names) == CASE t.k = "s" -> {t.s} \cap names
                       [] t.k = "l" -> UNION {NamedIn(t.l[i], names) : i \in DOMAIN t.l}
                       [] t.k = "t" -> UNION {NamedIn(t.t[i], names) : i \in DOMAIN t.t}
                       [] OTHER -> {}

RECURSIVE Isolate(_, _), Groups(_, _, _, _)
\* is: indices still to do, in order
Groups(goals, vs, is, roots) ==
    IF is = {} THEN <<>>
    ELSE LET S == Reach({MinOf(is)}, vs, is)
             idx == SelectSeq([i \in DOMAIN goals |-> i], LAMBDA i : i \in S)
             own == [i \in DOMAIN idx |-> goals[idx[i]]]
             part == IF (UNION {vs[i] : i \in S}) \cap roots # {} THEN own
                     ELSE <<TupT(<<Str("scoped"), ListT(Isolate(own, {}))>>)>>
         IN part \o Groups(goals, vs, is \ S, roots)
Isolate(goals, roots) ==
    IF goals = <<>> THEN <<>>
    ELSE LET head == goals[1]
             hv == {head.t[i].n : i \in {j \in DOMAIN head.t : head.t[j].k = "v"}}
             names == VarsOfSeq(Tail(goals))
             vs == TLCEval([i \in DOMAIN goals |-> (VarsOf(goals[i]) \cup NamedIn(goals[i], names)) \ hv])
         IN <<head>> \o Groups(goals, vs, DOMAIN goals \ {1}, roots)

Plan(goals, roots, sizes) == Isolate(Sort(Front(goals), sizes), roots)
==============================================================================
