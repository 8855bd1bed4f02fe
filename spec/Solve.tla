-------------------------------- MODULE Solve -------------------------------
(* The model and the goal interpreter.                                      *)
(*                                                                          *)
(* A state is a sequence of modules, in the order in which they answer:     *)
(*   [kind |-> "table", rels |-> [p |-> [ar, w]], rows |-> [p |-> rows]]    *)
(*        selections on stored rows; w: the relation can be written         *)
(*   [kind |-> "fixed", rels |-> [p |-> [ar, w]], rows |-> [p |-> rows]]    *)
(*        relations that return the same rows whatever is asked;            *)
(*        None in a row leaves that argument open; ar < 0: malformed        *)
(*   [kind |-> "infer", rules |-> Seq([head, body])]    inference module    *)
(*   [kind |-> "ctx",   rels, rows]                     dialogue context    *)
(*   [kind |-> "grammar", learned |-> Seq(number)]  grammar rules learned   *)
(*   [kind |-> "stats", rels: none, n |-> Seq(<<predicate, number>>)]       *)
(*        at the end, if the solved goals are to be counted                 *)
(* The built-in (core) module comes before all of them.                     *)
(*                                                                          *)
(* Every evaluation returns [r |-> results, s |-> state, e |-> error?]:     *)
(* goals can store, learn, and start contexts, so the state is threaded     *)
(* through in evaluation order: depth first, left to right.                 *)
EXTENDS Util

Ok(r, s) == [r |-> r, s |-> s, e |-> FALSE]
Err(s) == [r |-> <<>>, s |-> s, e |-> TRUE]
\* what happens is not specified: a built-in predicate is applied to something it is not meant for
Und(s) == [r |-> <<"undefined">>, s |-> s, e |-> TRUE]
IsUnd(x) == x.e /\ x.r # <<>>

CorePreds == {"equals", "greater_than", "less_than", "multiply", "arg_min", "arg_max", "sum", "avg",
              "percentage", "count", "not", "let", "det_equals", "det_greater_than", "det_less_than",
              "all", "none", "scoped", "store", "destructure", "find_all", "find_one"}
CtxPreds == {"with_context", "start_context", "end_context"}
Disjunction == "$disjunction"

HasPred(m, p) ==
    CASE m.kind = "core" -> p \in CorePreds
      [] m.kind = "infer" -> p = "learn_rule" \/ \E i \in DOMAIN m.rules : Pred(m.rules[i].head) = p
      [] m.kind = "ctx" -> p \in CtxPreds \/ p \in DOMAIN m.rels
      [] m.kind = "grammar" -> p = "learn_grammar_rule"
      [] OTHER -> p \in DOMAIN m.rels

CoreModule == [kind |-> "core"]
\* the indices of the modules that define p; 0 is the core module
Definers(p, st) == (IF p \in CorePreds THEN <<0>> ELSE <<>>) \o
                   SelectSeq([i \in DOMAIN st |-> i], LAMBDA i : HasPred(st[i], p))

\* the values a relation gets to see: bound variables replaced, unbound ones open
ArgVal(a, b) == IF IsVar(a) THEN IF a.n \in DOMAIN b THEN b[a.n] ELSE None ELSE a
ArgVals(args, b) == [i \in DOMAIN args |-> ArgVal(args[i], b)]

\* rows that equal all given values
Select(rows, vals) ==
    SelectSeq(rows, LAMBDA row : \A i \in DOMAIN vals : IsNone(vals[i]) \/ row[i] = vals[i])

\* one row against the arguments: <<>> on conflict, otherwise <<binding>>
RECURSIVE RowFrom(_, _, _, _, _)
RowFrom(args, row, b0, b, i) ==
    IF i > Len(args) THEN <<b>>
    ELSE IF IsVar(args[i]) THEN
        IF args[i].n \in DOMAIN b0
        THEN \* bound by the caller: the relation has seen the value, and its answer is not compared again
             RowFrom(args, row, b0, b, i + 1)
        ELSE IF args[i].n \in DOMAIN b /\ b[args[i].n] # row[i] THEN <<>>
        ELSE RowFrom(args, row, b0, Ext(b, args[i].n, row[i]), i + 1)
    ELSE IF IsNone(row[i]) \/ row[i] = args[i] THEN RowFrom(args, row, b0, b, i + 1)
    ELSE <<>>
RowBinding(args, row, b) == RowFrom(args, row, b, b, 1)

\* count a goal, if that is asked for
Tally(n, p) == IF \E i \in DOMAIN n : n[i][1] = p
               THEN [i \in DOMAIN n |-> IF n[i][1] = p THEN <<p, n[i][2] + 1>> ELSE n[i]]
               ELSE Append(n, <<p, 1>>)
CountGoal(p, st) == IF st # <<>> /\ st[Len(st)].kind = "stats" THEN [st EXCEPT ![Len(st)].n = Tally(@, p)] ELSE st

IsAtomList(t) == t.k = "l"
Body(t) == t.l

(* A relation may only say how many results there are, kind "iter": one      *)
(* answer then stands for all of them. They can be counted; what they are is *)
(* not specified.                                                            *)
Many(n) == << ("$many" :> Int_(n)) >>
ManyRow(n) == << << [k |-> "many", n |-> n] >> >>
IsManyRow(rows) == Len(rows) = 1 /\ Len(rows[1]) = 1 /\ rows[1][1].k = "many"
IsMany(r) == Len(r) = 1 /\ "$many" \in DOMAIN r[1]
Size(r) == IF IsMany(r) THEN r[1]["$many"].i ELSE Len(r)
\* an outcome whose answers are looked at
Each(r) == IF ~r.e /\ IsMany(r.r) THEN Und(r.s) ELSE r

RECURSIVE SolveQ(_, _, _), ForEach(_, _, _, _, _), Single(_, _, _), Counted(_, _, _), Disjuncts(_, _, _, _),
          Collect(_, _, _, _, _, _), Query(_, _, _, _, _, _), CoreQuery(_, _, _, _, _),
          Rules(_, _, _, _, _, _, _), OneRule(_, _, _, _), AllEach(_, _, _, _, _, _),
          WriteAll(_, _, _), HeadBind(_, _, _, _, _)

\* the answers of a list of goals
SolveQ(goals, b, st) ==
    IF goals = <<>> THEN Ok(<<b>>, st)
    ELSE IF Len(goals) = 1 THEN Single(goals[1], b, st)
    ELSE LET r1 == Each(Single(goals[1], b, st)) IN
         IF r1.e THEN r1 ELSE ForEach(r1.r, 1, Tail(goals), <<>>, r1.s)

\* the answers of goals for each binding in turn, each distinct one once
ForEach(bs, i, goals, acc, st) ==
    IF i > Len(bs) THEN Ok(acc, st)
    ELSE LET r == Each(SolveQ(goals, bs[i], st)) IN
         IF r.e THEN r ELSE ForEach(bs, i + 1, goals, AddAllNew(acc, r.r), r.s)

Disjuncts(ds, i, b, st) ==
    IF i > Len(ds) THEN Ok(<<>>, st)
    ELSE LET r == SolveQ(Body(ds[i]), b, st) IN
         IF r.e \/ r.r # <<>> THEN r ELSE Disjuncts(ds, i + 1, b, r.s)

Single(atom, b, st) == Counted(atom, b, CountGoal(Pred(atom), st))
Counted(atom, b, st) ==
    IF Pred(atom) = Disjunction THEN Disjuncts(Body(atom.t[2]), 1, b, st)
    ELSE LET p == Pred(atom)
             args == Args(atom)
             ds == Definers(p, st)
         IN IF ds = <<>> THEN Err(st)
            ELSE LET c == Collect(ds, 1, p, args, b, [r |-> <<>>, s |-> st, e |-> FALSE]) IN
                 IF c.e THEN c
                 ELSE IF IsManyRow(c.r) THEN Ok(Many(c.r[1][1].n), c.s)
                 ELSE IF \E i \in DOMAIN c.r : Len(c.r[i]) # Len(args) THEN Err(c.s)
                 ELSE Ok(Flat([i \in DOMAIN c.r |-> RowBinding(args, c.r[i], b)]), c.s)

\* the rows of all definers, in module order, identical rows once
Collect(ds, i, p, args, b, acc) ==
    IF i > Len(ds) THEN acc
    ELSE IF ds[i] # 0 /\ acc.s[ds[i]].kind = "iter"
    THEN IF Len(ds) > 1 THEN Err(acc.s)
         ELSE LET n == acc.s[ds[i]].rels[p].n IN Ok(IF n = 0 THEN <<>> ELSE ManyRow(n), acc.s)
    ELSE LET q == Query(ds[i], p, ArgVals(args, b), args, b, acc.s) IN
         IF q.e THEN q
         ELSE Collect(ds, i + 1, p, args, b, [r |-> AddAllNew(acc.r, q.r), s |-> q.s, e |-> FALSE])

Query(d, p, vals, args, b, st) ==
    IF d = 0 THEN CoreQuery(p, vals, args, b, st)
    ELSE LET m == st[d] IN
      CASE m.kind = "grammar" -> IF vals[1].k # "g" THEN Err(st) ELSE Ok(<< <<None>> >>, [st EXCEPT ![d].learned = Append(@, vals[1].i)])
        [] m.kind = "fixed" -> IF m.rels[p].ar < 0 THEN Err(st) ELSE Ok(m.rows[p], st)
        [] m.kind = "infer" ->
            IF p = "learn_rule"
            THEN IF vals[1].k # "t" THEN Err(st)
                 ELSE Ok(<< <<None, None>> >>,
                      [st EXCEPT ![d].rules = Append(@, [head |-> Subst(vals[1], b), body |-> Subst(vals[2], b).l])])
            ELSE Rules(SelectSeq(m.rules, LAMBDA r : Pred(r.head) = p), 1, args, b, st, <<>>, d)
        [] m.kind = "ctx" /\ p = "start_context" ->
            Ok(<< <<None>> >>, [st EXCEPT ![d].rows["context"] = Append(@, <<vals[1]>>)])
        [] m.kind = "ctx" /\ p = "end_context" ->
            Ok(<< <<None>> >>, [st EXCEPT ![d].rows["context"] = SelectSeq(@, LAMBDA r : r # <<vals[1]>>)])
        [] m.kind = "ctx" /\ p = "with_context" ->
            LET active == InSeq(<<vals[1]>>, m.rows["context"])
                st1 == IF active THEN st ELSE [st EXCEPT ![d].rows["context"] = Append(@, <<vals[1]>>)]
                r == IF vals[2].k = "l" THEN SolveQ(Body(vals[2]), b, st1) ELSE Err(st1)
                st2 == IF active THEN r.s
                       ELSE [r.s EXCEPT ![d].rows["context"] = SelectSeq(@, LAMBDA x : x # <<vals[1]>>)]
            IN IF r.e THEN Err(st2) ELSE Ok(<< <<None, None>> >>, st2)
        [] \E i \in DOMAIN vals : IsVar(vals[i]) -> Und(st)  \* a destructured variable is no value
        [] OTHER ->
            IF Len(vals) < m.rels[p].ar THEN Ok(Select(m.rows[p], vals), st)
            ELSE Ok(Select(m.rows[p], SubSeq(vals, 1, m.rels[p].ar)), st)

-----------------------------------------------------------------------------
\* inference rules

Rules(rules, i, args, b, st, acc, d) ==
    IF i > Len(rules) THEN Ok(acc, st)
    ELSE LET r == OneRule(rules[i], args, b, st) IN
         IF r.e THEN r ELSE Rules(rules, i + 1, args, b, r.s, acc \o r.r, d)

\* unify the head's arguments with the goal's: <<>> if that fails
HeadBind(hargs, args, b, hb, i) ==
    IF i > Len(hargs) \/ i > Len(args) THEN <<hb>>
    ELSE LET h == hargs[i]
             v == IF IsVar(args[i]) /\ args[i].n \in DOMAIN b THEN b[args[i].n] ELSE args[i]
         IN IF IsVar(v) THEN HeadBind(hargs, args, b, hb, i + 1)
            ELSE IF IsVar(h)
                 THEN IF h.n \in DOMAIN hb /\ hb[h.n] # v THEN <<>>
                      ELSE HeadBind(hargs, args, b, Ext(hb, h.n, v), i + 1)
            ELSE IF h = v THEN HeadBind(hargs, args, b, hb, i + 1) ELSE <<>>

OneRule(rule, args, b, st) ==
    LET hargs == Args(rule.head)
        own == VarsOf(rule.head) \cup VarsOfSeq(rule.body)
        hb == HeadBind(hargs, args, b, Without(b, own), 1)
    IN IF hb = <<>> THEN Ok(<<>>, st)
       ELSE LET sols == Each(SolveQ(rule.body, hb[1], st))
                n == IF Len(hargs) < Len(args) THEN Len(hargs) ELSE Len(args)
                Open(s) == \E i \in 1..n : IsVar(args[i]) /\ IsVar(hargs[i]) /\ hargs[i].n \notin DOMAIN s
                Val(s, i) == IF ~IsVar(args[i]) THEN args[i]
                             ELSE IF IsVar(hargs[i]) THEN s[hargs[i].n] ELSE hargs[i]
                good == SelectSeq(sols.r, LAMBDA s : ~Open(s))
            IN IF sols.e THEN sols
               ELSE Ok([j \in DOMAIN good |-> [i \in 1..n |-> Val(good[j], i)]], sols.s)

-----------------------------------------------------------------------------
\* storing

CanWrite(m, p) == m.kind \in {"table", "ctx"} /\ p \in DOMAIN m.rels /\ m.rels[p].w
\* the predicates that the dialogue context gets a default write function for have no table
WriteFails(m, p) == m.kind = "ctx" /\ p \in CtxPreds

WriteAtom(atom, st) ==
    LET p == Pred(atom) IN
    IF Definers(p, st) = <<>> THEN Err(st)
    ELSE IF \E i \in DOMAIN st : WriteFails(st[i], p) THEN Err(st)
    ELSE Ok(<<>>, [i \in DOMAIN st |->
                     IF CanWrite(st[i], p) THEN [st[i] EXCEPT !.rows[p] = Append(@, Args(atom))] ELSE st[i]])

WriteAll(atoms, i, st) ==
    IF i > Len(atoms) THEN Ok(<<>>, st)
    ELSE LET r == WriteAtom(atoms[i], st) IN IF r.e THEN r ELSE WriteAll(atoms, i + 1, r.s)

-----------------------------------------------------------------------------
\* built-in predicates

Values(sols, n) == [i \in DOMAIN sols |-> sols[i][n]]
AllHave(sols, n) == \A i \in DOMAIN sols : n \in DOMAIN sols[i]

RECURSIVE SumTerms(_, _, _)
SumTerms(vs, i, acc) == IF i > Len(vs) THEN acc ELSE SumTerms(vs, i + 1, AddN(acc, vs[i]))

\* the index of the first extreme value
Extreme(vs, Better(_, _)) ==
    CHOOSE i \in DOMAIN vs : /\ \A j \in DOMAIN vs : ~Better(vs[j], vs[i])
                             /\ \A j \in DOMAIN vs : j < i => Better(vs[i], vs[j])

\* 'all': the entities one by one; every entity is tried, also after a failure
AllEach(es, i, n, body, b, acc) ==
    IF acc.e \/ i > Len(es) THEN acc
    ELSE LET r == SolveQ(body, Ext(b, n, es[i]), acc.s) IN
         IF r.e THEN r
         ELSE AllEach(es, i + 1, n, body, b,
                      [r |-> IF r.r # <<>> THEN Append(acc.r, es[i]) ELSE acc.r, s |-> r.s, e |-> FALSE])

FindAll(vals, b, st) ==
    IF vals[2].k # "l" THEN Err(st)
    ELSE IF ~IsStr(vals[1]) /\ ~(vals[1].k = "l" /\ \A i \in DOMAIN vals[1].l : IsStr(vals[1].l[i])) THEN Und(st)
    ELSE LET v == vals[1]
             sols == Each(SolveQ(Body(vals[2]), b, st))
             Item(s, n) == IF n \in DOMAIN s THEN s[n] ELSE None
         IN IF sols.e THEN sols
            ELSE IF v.k = "l"
                 THEN Ok(Dedup([i \in DOMAIN sols.r |->
                            ListT([j \in DOMAIN v.l |-> Item(sols.r[i], v.l[j].s)])]), sols.s)
                 ELSE LET has == SelectSeq(sols.r, LAMBDA s : v.s \in DOMAIN s)
                      IN Ok(Dedup(Values(has, v.s)), sols.s)

Destructure(vals, args, b) ==
    LET atom == Subst(vals[1], b).l[1].t
        struct == SubSeq(args, 2, Len(args))
        fits == /\ Len(atom) = Len(struct)
                /\ \A i \in DOMAIN struct : atom[i] = struct[i] \/ IsVar(struct[i])
    IN << <<None>> \o [i \in DOMAIN struct |-> IF fits THEN atom[i] ELSE None] >>

CoreQuery(p, vals, args, b, st) ==
    LET Res(body, F(_)) == \* solve a body; F maps its answers to rows
            IF body.k # "l" THEN Err(st)
            ELSE LET r == SolveQ(Body(body), b, st) IN IF r.e THEN r ELSE Ok(F(r.r), r.s)
        Yes(n) == << [i \in 1..n |-> None] >>
        Unbound == IsNone(vals[1]) \/ IsNone(vals[2])
        NoNums == ~IsNum(vals[1]) \/ ~IsNum(vals[2])
    IN
    CASE p = "equals" ->
            IF IsNone(vals[1]) /\ IsNone(vals[2]) THEN Err(st)
            ELSE IF IsNone(vals[1]) THEN Ok(<< <<vals[2], vals[2]>> >>, st)
            ELSE IF IsNone(vals[2]) THEN Ok(<< <<vals[1], vals[1]>> >>, st)
            ELSE Ok(IF vals[1] = vals[2] THEN << vals >> ELSE <<>>, st)
      [] p = "greater_than" -> IF Unbound THEN Err(st) ELSE IF NoNums THEN Und(st)
                               ELSE Ok(IF NumLess(vals[2], vals[1]) THEN << vals >> ELSE <<>>, st)
      [] p = "less_than" -> IF Unbound THEN Err(st) ELSE IF NoNums THEN Und(st)
                            ELSE Ok(IF NumLess(vals[1], vals[2]) THEN << vals >> ELSE <<>>, st)
      [] p = "multiply" -> IF Unbound THEN Err(st) ELSE IF NoNums THEN Und(st)
                           ELSE Ok(<< <<None, None, MulN(vals[1], vals[2])>> >>, st)
      [] p = "let" -> Ok(<< <<vals[2], vals[2]>> >>, st)
      [] p \in {"not", "none"} -> Res(vals[1], LAMBDA r : IF r = <<>> THEN Yes(1) ELSE <<>>)
      [] p = "scoped" -> Res(vals[1], LAMBDA r : IF r = <<>> THEN <<>> ELSE Yes(1))
      [] p \in {"det_equals", "det_greater_than", "det_less_than"} ->
            IF vals[1].k # "l" THEN Err(st)
            ELSE LET r == SolveQ(Body(vals[1]), b, st)
                     n == Int_(Size(r.r))
                 IN IF r.e THEN r
                    ELSE IF ~IsNum(vals[2]) THEN IF p = "det_equals" THEN Ok(<<>>, r.s) ELSE IF IsNone(vals[2]) THEN Err(r.s) ELSE Und(r.s)
                    ELSE Ok(IF CASE p = "det_equals" -> ~NumLess(n, vals[2]) /\ ~NumLess(vals[2], n)
                                 [] p = "det_greater_than" -> NumLess(vals[2], n)
                                 [] OTHER -> NumLess(n, vals[2])
                            THEN Yes(2) ELSE <<>>, r.s)
      [] p = "count" -> Res(vals[2], LAMBDA r : << <<Int_(Size(r)), None>> >>)
      [] p \in {"sum", "avg"} ->
            IF ~IsVar(args[2]) THEN Und(st) ELSE IF vals[3].k # "l" THEN Err(st)
            ELSE LET r == SolveQ(Body(vals[3]), b, st)
                     n == args[2].n
                 IN IF r.e THEN r
                    ELSE IF p = "avg" /\ r.r = <<>> THEN Ok(<<>>, r.s)
                    ELSE IF ~AllHave(r.r, n) \/ \E i \in DOMAIN r.r : ~IsNum(r.r[i][n]) THEN Und(r.s)
                    ELSE LET sum == SumTerms(Values(r.r, n), 1, Int_(0)) IN
                         Ok(<< <<IF p = "sum" THEN sum ELSE Rat(Num(sum), Den(sum) * Len(r.r)), None, None>> >>, r.s)
      [] p \in {"arg_min", "arg_max"} ->
            IF ~IsVar(args[1]) \/ ~IsVar(args[2]) THEN Und(st) ELSE IF vals[3].k # "l" THEN Err(st)
            ELSE LET r == SolveQ(Body(vals[3]), b, st)
                     m == args[1].n
                     n == args[2].n
                 IN IF r.e THEN r
                    ELSE IF r.r = <<>> THEN Ok(<<>>, r.s)
                    ELSE IF ~AllHave(r.r, n) \/ ~AllHave(r.r, m) \/ \E i \in DOMAIN r.r : ~IsNum(r.r[i][n]) THEN Und(r.s)
                    ELSE LET vs == Values(r.r, n)
                             i == Extreme(vs, LAMBDA x, y : IF p = "arg_min" THEN NumLess(x, y) ELSE NumLess(y, x))
                         IN Ok(<< <<r.r[i][m], vs[i], None>> >>, r.s)
      [] p = "percentage" ->
            IF vals[2].k # "l" \/ vals[3].k # "l" THEN Err(st)
            ELSE LET r1 == SolveQ(Body(vals[2]), b, st) IN
                 IF r1.e THEN r1
                 ELSE LET r2 == SolveQ(Body(vals[3]), b, r1.s) IN
                      IF r2.e THEN r2
                      ELSE IF r2.r = <<>> THEN Ok(<<>>, r2.s)
                      ELSE Ok(<< <<Rat(100 * Size(r1.r), Size(r2.r)), None, None>> >>, r2.s)
      [] p = "all" ->
            IF ~IsVar(args[1]) THEN Und(st) ELSE IF vals[2].k # "l" THEN Err(st)
            ELSE LET n == args[1].n
                     r == SolveQ(Body(vals[2]), b, st)
                 IN IF r.e THEN r
                    ELSE IF ~AllHave(r.r, n) THEN Und(r.s)
                    ELSE LET es == Dedup(Values(r.r, n)) IN
                         IF es # <<>> /\ vals[3].k # "l" THEN Err(r.s)
                         ELSE LET a == AllEach(es, 1, n, Body(vals[3]), b, Ok(<<>>, r.s)) IN
                              IF a.e THEN a
                              ELSE Ok(IF Len(a.r) = Len(es) THEN [i \in DOMAIN es |-> <<es[i], None, None>>]
                                      ELSE <<>>, a.s)
      [] p = "store" ->
            IF vals[1].k # "l" THEN Err(st)
            ELSE LET r == WriteAll(Subst(vals[1], b).l, 1, st) IN
                 IF r.e THEN r ELSE Ok(Yes(1), r.s)
      [] p = "destructure" -> Ok(Destructure(vals, args, b), st)
      [] p = "find_all" -> LET r == FindAll(vals, b, st) IN
                           IF r.e THEN r ELSE Ok(<< <<None, None, ListT(r.r)>> >>, r.s)
      [] p = "find_one" -> LET r == FindAll(vals, b, st) IN
                           IF r.e THEN r
                           ELSE Ok(IF r.r = <<>> THEN <<>> ELSE << <<None, None, r.r[1]>> >>, r.s)
=============================================================================
