------------------------------- MODULE Compose -------------------------------
(* The meaning of a parse tree.                                              *)
(*                                                                           *)
(* A rule is [ar |-> antecedent arguments, rhs |-> constituents [t, ar],     *)
(*   sem, exe, dlg |-> expressions, or NoExpr].                              *)
(* An expression is one of                                                   *)
(*   [e |-> "lit", v |-> list term]        atoms, written in the rule        *)
(*   [e |-> "str", s |-> string]           a string                          *)
(*   [e |-> "child", i |-> n]              the meaning of constituent n      *)
(*   [e |-> "cat", xs |-> expressions]     lists joined                      *)
(*   [e |-> "slot", s |-> name]            a place to fill in                *)
(*   [e |-> "tmpl", slots |-> names, x |-> expression]                       *)
(*   [e |-> "apply", f |-> expression, xs |-> expressions]                   *)
(* where a term may contain [k |-> "x", x |-> expression] and a place to     *)
(* fill in is the term [k |-> "slot", s |-> name].                           *)
(*                                                                           *)
(* The definition is hygienic by construction: a rule's own expressions are  *)
(* instantiated before the meanings of its constituents are put in. The      *)
(* variable that formal name E of the rule at tree position path stands for  *)
(* is the argument it is called with, or else path/E.                        *)
EXTENDS Util

NoExpr == [e |-> "none"]
Template(slots, body) == [k |-> "tm", slots |-> slots, body |-> body]

Fresh(path, n) == path \o "/" \o n
\* the variable that formal name n stands for
Actual(n, env) == IF n \in DOMAIN env.map THEN env.map[n] ELSE Fresh(env.path, n)

RECURSIVE Fill(_, _, _), FillSeq(_, _, _)
\* put the elements of the list in the place of the slot
FillSeq(xs, s, with) ==
    Flat([i \in DOMAIN xs |-> IF xs[i].k = "slot" /\ xs[i].s = s THEN with ELSE <<Fill(xs[i], s, with)>>])
Fill(t, s, with) ==
    CASE t.k = "l" -> ListT(FillSeq(t.l, s, with))
      [] t.k = "t" -> TupT(FillSeq(t.t, s, with))
      [] OTHER -> t

\* Now(e, Op) is Op(e); TLC evaluates e once (a set's elements are evaluated at once; LET and arguments are not)
Now(e, Op(_)) == CHOOSE r \in {TLCEval(Op(v)) : v \in {e}} : TRUE

RECURSIVE ApplyFrom(_, _, _, _)
ApplyFrom(slots, body, args, i) ==
    IF i > Len(args) THEN body
    ELSE Now(TLCEval(Fill(body, slots[i], args[i].l)), LAMBDA b : ApplyFrom(slots, b, args, i + 1))

RECURSIVE Eval(_, _), Inst(_, _)
\* env: [map, path, vals]: formal -> actual names, tree position, meanings of the constituents
Inst(t, env) ==
    CASE t.k = "v" -> VarT(Actual(t.n, env))
      [] t.k = "rv" -> [k |-> "rn", n |-> Actual(t.n, env)]
      [] t.k = "l" -> ListT(TLCEval([i \in DOMAIN t.l |-> Inst(t.l[i], env)]))
      [] t.k = "t" -> TupT(TLCEval([i \in DOMAIN t.t |-> Inst(t.t[i], env)]))
      [] t.k = "x" -> Eval(t.x, env)
      [] OTHER -> t
Eval(x, env) ==
    CASE x.e = "lit" -> Inst(x.v, env)
      [] x.e = "str" -> Str(x.s)
      [] x.e = "child" -> env.vals[x.i]
      [] x.e = "slot" -> ListT(<<[k |-> "slot", s |-> x.s]>>)
      [] x.e = "cat" -> Now(TLCEval([i \in DOMAIN x.xs |-> Eval(x.xs[i], env)]),
                            LAMBDA xs : ListT(Flat([i \in DOMAIN xs |-> xs[i].l])))
      [] x.e = "tmpl" -> Template(x.slots, Eval(x.x, env))
      [] x.e = "apply" -> Now(<<Eval(x.f, env), TLCEval([i \in DOMAIN x.xs |-> Eval(x.xs[i], env)])>>,
                              LAMBDA p : ApplyFrom(p[1].slots, p[1].body, p[2], 1))
      [] OTHER -> ListT(<<>>)

RECURSIVE MeaningOf(_, _, _, _)
\* tree: [r, t, f, c]; f is the text of a token; incoming: the variables it is called with
Kids(tree) == SelectSeq([i \in DOMAIN tree.c |-> i], LAMBDA i : tree.c[i].t = "r")
Speaking(tree) == SelectSeq([i \in DOMAIN tree.c |-> i], LAMBDA i : tree.c[i].t # "w")
\* p: <<sub, env>>: meanings of the constituents that are rules; environment
Whole(rule, tree, p) ==
    [sem |-> Eval(rule.sem, p[2]),
     exe |-> IF rule.exe # NoExpr THEN Eval(rule.exe, p[2]).l
             ELSE Flat([k \in DOMAIN Kids(tree) |-> p[1][Kids(tree)[k]].exe]),
     dlg |-> Flat([k \in DOMAIN Kids(tree) |-> p[1][Kids(tree)[k]].dlg]) \o Eval(rule.dlg, p[2]).l]
WithParts(rule, tree, map, path, sub) ==
    LET sp == Speaking(tree) IN
    Now(<<sub, [map |-> map, path |-> path,
                vals |-> TLCEval([k \in DOMAIN sp |-> IF tree.c[sp[k]].t = "r" THEN sub[sp[k]].sem ELSE Str(tree.c[sp[k]].s)])]>>,
        LAMBDA p : Whole(rule, tree, p))
\* p: <<rule, map>>
WithNames(g, tree, p, path) ==
    Now(TLCEval([i \in Range(Kids(tree)) |->
            Now(TLCEval([j \in DOMAIN p[1].rhs[i].ar |-> Actual(p[1].rhs[i].ar[j], [map |-> p[2], path |-> path])]),
                LAMBDA inc : Now(path \o "." \o ToString(i), LAMBDA pth : MeaningOf(g, tree.c[i], inc, pth)))]),
        LAMBDA sub : WithParts(p[1], tree, p[2], path, sub))
MeaningOf(g, tree, incoming, path) ==
    Now(<<g[tree.r], TLCEval([n \in Range(g[tree.r].ar) |-> incoming[IndexOf(g[tree.r].ar, n)]])>>,
        LAMBDA p : WithNames(g, tree, p, path))

RECURSIVE HasMeaning(_, _)
HasMeaning(g, tree) == tree.r = 0 \/ (g[tree.r].sem # NoExpr /\ \A i \in DOMAIN tree.c : HasMeaning(g, tree.c[i]))

-----------------------------------------------------------------------------
(* comparing with a recorded meaning: same structure, and which variable is  *)
(* which                                                                     *)
Miss == [ok |-> FALSE, pairs |-> {}, reified |-> {}]
Hit(ps) == [ok |-> TRUE, pairs |-> ps, reified |-> {}]
JoinAll(ms) == [ok |-> \A i \in DOMAIN ms : ms[i].ok,
             pairs |-> UNION {ms[i].pairs : i \in DOMAIN ms},
             reified |-> UNION {ms[i].reified : i \in DOMAIN ms}]
Join(ms) == Now(TLCEval(ms), JoinAll)

RECURSIVE Match(_, _), MatchSeq(_, _)
MatchSeq(ws, rs) == IF Len(ws) # Len(rs) THEN Miss ELSE Join([i \in DOMAIN ws |-> Match(ws[i], rs[i])])
\* w: wanted; r: recorded
Match(w, r) ==
    CASE w.k = "v" -> IF r.k = "v" THEN Hit({<<w.n, r.n>>}) ELSE Miss
      [] w.k = "rn" -> IF r.k \in {"s", "v", "rv"}
                       THEN [ok |-> TRUE, pairs |-> IF r.k = "s" THEN {<<w.n, r.s>>} ELSE {}, reified |-> {r.k}]
                       ELSE Miss
      [] w.k = "l" -> IF r.k = "l" THEN MatchSeq(w.l, r.l) ELSE Miss
      [] w.k = "t" -> IF r.k = "t" THEN MatchSeq(w.t, r.t) ELSE Miss
      [] OTHER -> IF w = r THEN Hit({}) ELSE Miss

OneToOne(pairs) == /\ Cardinality({p[1] : p \in pairs}) = Cardinality(pairs)
                   /\ Cardinality({p[2] : p \in pairs}) = Cardinality(pairs)
==============================================================================
