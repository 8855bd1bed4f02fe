----------------------------- MODULE MC_Compose -----------------------------
(* All parse trees of a small grammar up to a size.  The meaning is compared *)
(* with a second definition of which variables are the same: every rule of   *)
(* the tree has variables of its own, and an argument makes two of them the  *)
(* same (the least equivalence). The choice of the names in a rule does not  *)
(* matter, and sentences share no variables.                                 *)
(* Every tree is printed as a text, to be replayed.                          *)
EXTENDS Compose, Json
CONSTANTS MaxNodes, Kinds
VARIABLES tree
vars == <<tree>>

Wd(k) == [t |-> "w", p |-> "", ar |-> <<>>, f |-> <<119, 48 + k \div 10, 48 + (k % 10)>>, o |-> FALSE, j |-> " "]
Rel(p, ar) == [t |-> "r", p |-> p, ar |-> ar, f |-> <<>>, o |-> FALSE, j |-> " "]
Lit(v) == [e |-> "lit", v |-> v]
Kid(i) == [e |-> "child", i |-> i]
Cat(xs) == [e |-> "cat", xs |-> xs]
Slot(s) == [e |-> "slot", s |-> s]
Tmpl(slots, x) == [e |-> "tmpl", slots |-> slots, x |-> x]
Apply(f, xs) == [e |-> "apply", f |-> f, xs |-> xs]
In(x) == [k |-> "x", x |-> x]
At(p, args) == TupT(<<Str(p)>> \o args)
One(t) == Lit(ListT(<<t>>))
RVar(n) == [k |-> "rv", n |-> n]
E1 == VarT("E1")  E2 == VarT("E2")  E3 == VarT("E3")
Rule(lhs, ar, rhs, sem, exe, dlg) == [lhs |-> lhs, ar |-> ar, rhs |-> rhs, sem |-> sem, exe |-> exe, dlg |-> dlg]
\* the rules without the word that they begin with
Vocabulary == <<
    Rule("s", <<"E1">>, <<Rel("np", <<"E2">>), Rel("vp", <<"E1", "E2">>)>>, Apply(Kid(1), <<Kid(2)>>), NoExpr, One(At("d", <<E1, E2, E3>>))),
    Rule("s", <<"E2">>, <<Rel("vp", <<"E2", "E2">>), Rel("n", <<"E1">>)>>, Cat(<<Kid(1), Kid(2), One(At("s", <<E1, E2, RVar("E2")>>))>>), Cat(<<Kid(2)>>), NoExpr),
    Rule("s", <<>>, <<Rel("np", <<"E1">>), Rel("np", <<"E1">>)>>, Apply(Kid(2), <<Apply(Kid(1), <<One(At("two", <<E1, E2>>))>>)>>), NoExpr, Cat(<<One(At("e", <<E1>>))>>)),
    Rule("np", <<"E1">>, <<Rel("n", <<"E1">>)>>, Tmpl(<<"Body">>, One(At("all", <<E2, In(Kid(1)), In(Slot("Body"))>>))), NoExpr, NoExpr),
    Rule("np", <<"E2">>, <<Rel("det", <<"E2">>), Rel("n", <<"E2">>)>>, Tmpl(<<"Body">>, Apply(Kid(1), <<Kid(2), Slot("Body")>>)), NoExpr, NoExpr),
    Rule("np", <<"E3">>, <<Rel("np", <<"E1">>), Rel("vp", <<"E3", "E1">>)>>, Tmpl(<<"Body">>, Cat(<<Apply(Kid(1), <<Kid(2)>>), Slot("Body")>>)), One(At("x", <<E1, E2, E3>>)), NoExpr),
    Rule("det", <<"E1">>, <<>>, Tmpl(<<"Range", "Body">>, One(At("det", <<RVar("E1"), E2, In(Slot("Range")), In(Slot("Body"))>>))), NoExpr, One(At("f", <<E1, RVar("E1")>>))),
    Rule("n", <<"E1">>, <<>>, One(At("n", <<E1, E2>>)), NoExpr, NoExpr),
    Rule("n", <<"E2">>, <<Rel("n", <<"E2">>), Rel("vp", <<"E1", "E1">>)>>, Cat(<<Kid(1), Kid(2)>>), NoExpr, NoExpr),
    Rule("vp", <<"E2", "E1">>, <<>>, One(At("v", <<E1, E2, E3>>)), One(At("do", <<E2>>)), NoExpr),
    Rule("vp", <<"E1", "E1x">>, <<Rel("np", <<"E2">>), Rel("vp", <<"E1x", "E2">>)>>, Apply(Kid(1), <<Cat(<<Kid(2), One(At("w", <<E1, E2>>))>>)>>), NoExpr, NoExpr)>>

Rules == [i \in DOMAIN Vocabulary |-> [Vocabulary[i] EXCEPT !.rhs = <<Wd(i)>> \o @]]
Space == [t |-> "w", ar |-> <<>>]
SpecRules(rs) == [i \in DOMAIN rs |-> [ar |-> rs[i].ar, sem |-> rs[i].sem, exe |-> rs[i].exe, dlg |-> rs[i].dlg,
                                       rhs |-> Flat([k \in DOMAIN rs[i].rhs |-> IF k = 1 THEN <<rs[i].rhs[k]>> ELSE <<Space, rs[i].rhs[k]>>])]]
G == SpecRules(Rules)

Token(s) == [r |-> 0, t |-> "w", s |-> s, c |-> <<>>]
Node(i, kids) == [r |-> i, t |-> "r", s |-> "", c |-> <<Token("w")>> \o Flat([k \in DOMAIN kids |-> <<Token(" "), kids[k]>>])]
\* the trees of n nodes that are rules
RECURSIVE Trees(_, _), TreesOf(_, _)
TreesOf(i, n) == LET kids == Vocabulary[i].rhs IN
    IF kids = <<>> THEN IF n = 1 THEN {Node(i, <<>>)} ELSE {}
    ELSE IF Len(kids) = 1 THEN {Node(i, <<a>>) : a \in Trees(kids[1].p, n - 1)}
    ELSE UNION {{Node(i, <<p[1], p[2]>>) : p \in Trees(kids[1].p, k) \X Trees(kids[2].p, n - 1 - k)} : k \in 1..(n - 2)}
Trees(cat, n) == IF n < 1 THEN {} ELSE UNION {TreesOf(i, n) : i \in {i \in DOMAIN Vocabulary : Vocabulary[i].lhs = cat}}

RECURSIVE WordsOf(_)
WordsOf(t) == (IF t.r \div 10 = 0 THEN "w0" ELSE "w") \o ToString(t.r)
              \o LET ks == Kids(t) F[k \in 0..Len(ks)] == IF k = 0 THEN "" ELSE F[k - 1] \o " " \o WordsOf(t.c[ks[k]]) IN F[Len(ks)]

ASSUME PrintT("@@B " \o ToJson([g |-> Rules]))
NoTree == [r |-> 0]
Init == tree = NoTree
Next == /\ tree = NoTree
        /\ \E k \in Kinds, n \in 1..MaxNodes : tree' \in TreesOf(k, n)
        /\ PrintT("@@B " \o ToJson([text |-> WordsOf(tree')]))
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* Second definition. A variable is <<path, name>>; the meaning is made with *)
(* these; then the variables that the arguments identify become one.         *)
\* the rule's own expression, with the meanings of its parts put in from below
RECURSIVE Raw(_, _)
RawOf(rule, sub, env) ==
    [sem |-> Eval(rule.sem, env),
     exe |-> IF rule.exe # NoExpr THEN Eval(rule.exe, env).l ELSE Flat([k \in DOMAIN sub |-> sub[k].exe]),
     dlg |-> Flat([k \in DOMAIN sub |-> sub[k].dlg]) \o Eval(rule.dlg, env).l]
Raw(t, path) ==
    Now(TLCEval([k \in DOMAIN Kids(t) |-> Now(path \o "." \o ToString(Kids(t)[k]), LAMBDA p : Raw(t.c[Kids(t)[k]], p))]),
        LAMBDA sub : Now([map |-> [n \in {} |-> ""], path |-> path, vals |-> [k \in DOMAIN sub |-> sub[k].sem]],
                         LAMBDA env : RawOf(G[t.r], sub, env)))

RECURSIVE Links(_, _)
\* the pairs of variables that arguments identify
Links(t, path) == UNION {LET p == path \o "." \o ToString(i)  kid == t.c[i] IN
                         {<<Fresh(path, G[t.r].rhs[i].ar[k]), Fresh(p, G[kid.r].ar[k])>> : k \in DOMAIN G[kid.r].ar} \cup Links(kid, p)
                         : i \in Range(Kids(t))}
RECURSIVE Closure(_)
Closure(cs) == LET clash == {p \in cs \X cs : p[1] # p[2] /\ p[1] \cap p[2] # {}} IN
               IF clash = {} THEN cs
               ELSE LET p == CHOOSE p \in clash : TRUE IN Closure((cs \ {p[1], p[2]}) \cup {p[1] \cup p[2]})
ClassOf(cs, n) == IF \E c \in cs : n \in c THEN (CHOOSE c \in cs : n \in c) ELSE {n}

\* the variables of a meaning in the order in which they are written, reified or not
RECURSIVE Vars(_), Shape(_)
Vars(t) == CASE t.k \in {"v", "rn"} -> <<t.n>>
             [] t.k = "l" -> Flat([i \in DOMAIN t.l |-> Vars(t.l[i])])
             [] t.k = "t" -> Flat([i \in DOMAIN t.t |-> Vars(t.t[i])])
             [] OTHER -> <<>>
Shape(t) == CASE t.k \in {"v", "rn"} -> [t EXCEPT !.n = ""]
              [] t.k = "l" -> ListT([i \in DOMAIN t.l |-> Shape(t.l[i])])
              [] t.k = "t" -> TupT([i \in DOMAIN t.t |-> Shape(t.t[i])])
              [] OTHER -> t
All(m) == ListT(<<m.sem, ListT(m.exe), ListT(m.dlg)>>)
Roots(t, s) == [i \in DOMAIN G[t.r].ar |-> s \o "#" \o ToString(i)]
Same(us, vs) == Len(us) = Len(vs) /\ \A i, j \in DOMAIN us : (us[i] = us[j]) = (vs[i] = vs[j])

Agree == tree # NoTree =>
    \E one \in {All(MeaningOf(G, tree, Roots(tree, "s1"), "s1"))} :
    \E raw \in {All(Raw(tree, "s1"))} :
    \E cs \in {Closure({{p[1], p[2]} : p \in Links(tree, "s1")})} :
    \E us \in {Vars(one)} : \E ns \in {Vars(raw)} : \E vs \in {TLCEval([i \in DOMAIN ns |-> ClassOf(cs, ns[i])])} :
       /\ Shape(one) = Shape(raw)
       /\ Same(us, vs)
       \* a variable in the meaning of the sentence is one that it is called with iff it is in the class of that argument
       /\ \A i \in DOMAIN us : \A k \in DOMAIN G[tree.r].ar :
             (us[i] = Roots(tree, "s1")[k]) = (Fresh("s1", G[tree.r].ar[k]) \in vs[i])
       \* another sentence has other variables
       /\ Range(us) \cap Range(Vars(All(MeaningOf(G, tree, Roots(tree, "s2"), "s2")))) = {}

\* other names in a rule, the same meaning
Rename(n) == CASE n = "E1" -> "E2" [] n = "E2" -> "E3" [] n = "E3" -> "E1" [] OTHER -> n
RECURSIVE RenT(_), RenX(_)
RenT(t) == CASE t.k \in {"v", "rv"} -> [t EXCEPT !.n = Rename(@)]
             [] t.k = "l" -> ListT([i \in DOMAIN t.l |-> RenT(t.l[i])])
             [] t.k = "t" -> TupT([i \in DOMAIN t.t |-> RenT(t.t[i])])
             [] t.k = "x" -> In(RenX(t.x))
             [] OTHER -> t
RenX(x) == CASE x.e = "lit" -> Lit(RenT(x.v))
             [] x.e = "cat" -> Cat([i \in DOMAIN x.xs |-> RenX(x.xs[i])])
             [] x.e = "tmpl" -> Tmpl(x.slots, RenX(x.x))
             [] x.e = "apply" -> Apply(RenX(x.f), [i \in DOMAIN x.xs |-> RenX(x.xs[i])])
             [] OTHER -> x
RenRule(r) == [ar |-> [i \in DOMAIN r.ar |-> Rename(r.ar[i])], sem |-> RenX(r.sem), exe |-> RenX(r.exe), dlg |-> RenX(r.dlg),
               rhs |-> [k \in DOMAIN r.rhs |-> [r.rhs[k] EXCEPT !.ar = [i \in DOMAIN @ |-> Rename(@[i])]]]]
NamesDoNotMatter == tree # NoTree =>
    \E one \in {All(MeaningOf(G, tree, Roots(tree, "s1"), "s1"))} :
    \A some \in {{i \in DOMAIN G : i % 2 = 0}, DOMAIN G, {i \in DOMAIN G : i > 6}} :
        \E h \in {TLCEval([i \in DOMAIN G |-> IF i \in some THEN RenRule(G[i]) ELSE G[i]])} :
        \E two \in {All(MeaningOf(h, tree, Roots(tree, "s1"), "s1"))} :
           Shape(one) = Shape(two) /\ Same(Vars(one), Vars(two))
\* no place is left to fill in, and a reified name is that of a variable
RECURSIVE NoSlot(_)
NoSlot(t) == CASE t.k = "slot" -> FALSE
               [] t.k = "l" -> \A i \in DOMAIN t.l : NoSlot(t.l[i])
               [] t.k = "t" -> \A i \in DOMAIN t.t : NoSlot(t.t[i])
               [] OTHER -> TRUE
Filled == tree # NoTree => NoSlot(All(MeaningOf(G, tree, Roots(tree, "s1"), "s1")))
==============================================================================
