------------------------------ MODULE MC_Parse ------------------------------
(* All small grammars over a vocabulary of rules, all short texts: trees,    *)
(* recognition and counting, which are defined independently of one another, *)
(* agree; a tree reads its text; more rules keep the trees there were.       *)
(* Every grammar with all its texts is printed, to be replayed.              *)
EXTENDS Parse, Json
CONSTANTS MaxRules, MaxText, Prefixes
VARIABLES g, text
vars == <<g, text>>

W(f, j, o) == [t |-> "w", p |-> "", ar |-> <<>>, f |-> f, o |-> o, j |-> j]
Rel(p, ar, j) == [t |-> "r", p |-> p, ar |-> ar, f |-> <<>>, o |-> FALSE, j |-> j]
X(j) == [t |-> "x", p |-> "[ab]+", ar |-> <<>>, f |-> <<>>, o |-> FALSE, j |-> j]
R(lhs, ar, rhs, boost) == [lhs |-> lhs, ar |-> ar, rhs |-> rhs, boost |-> boost]
a == <<97>>  b == <<98>>  bb == <<66, 97>>  \* a, b, Ba
E1 == <<"E1">>  E2 == <<"E2">>  E12 == <<"E1", "E2">>  No == <<>>
Vocabulary == <<
    R("s", No, <<W(a, " ", FALSE)>>, 0),
    R("s", No, <<Rel("s", No, " "), Rel("s", No, "+")>>, 1),
    R("s", No, <<W(a, " ", FALSE), Rel("s", No, " ")>>, 0),
    R("s", No, <<Rel("n", E1, " ")>>, -1),
    R("n", E1, <<W(b, " ", FALSE)>>, 0),
    R("n", E1, <<W(bb, " ", FALSE)>>, 2),
    R("n", E1, <<Rel("n", E1, " "), W(a, "~", FALSE)>>, 0),
    R("s", E1, <<Rel("n", E1, " "), Rel("n", E2, "+")>>, 0),
    R("n", E12, <<W(b, " ", FALSE)>>, 0),
    R("s", No, <<X(" ")>>, 0),
    R("s", E2, <<X(" "), X("~")>>, 0),
    R("s", No, <<W(a, " ", TRUE), W(b, "~", FALSE), W(a, " ", TRUE)>>, 0)>>

Letters == {97, 98, 32}
Texts == UNION {[1..k -> Letters] : k \in 0..MaxText}
ABRun(t, i) == IF i >= Len(t) \/ t[i + 1] = 32 THEN 0
               ELSE (CHOOSE k \in 1..(Len(t) - i) : (\A m \in 1..k : t[i + m] # 32) /\ (i + k = Len(t) \/ t[i + k + 1] = 32))
Re(t) == ("[ab]+" :> [i \in 1..(Len(t) + 1) |-> ABRun(t, i - 1)])

Grammars == {s \in UNION {[1..k -> 1..Len(Vocabulary)] : k \in 1..MaxRules} : \A i \in 1..(Len(s) - 1) : s[i] < s[i + 1]}
Rules == [i \in DOMAIN g |-> Vocabulary[g[i]]]
Init == g = <<>> /\ text = <<>>
Next == /\ g = <<>>
        /\ g' \in Grammars
        /\ text' \in Texts
        /\ IF text' = <<>> THEN PrintT("@@B " \o ToJson([g |-> [i \in DOMAIN g' |-> Vocabulary[g'[i]]]])) ELSE TRUE
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* the text of a tree, and whether its nodes follow the rules
RECURSIVE Yield(_), Follows(_, _)
Yield(t) == IF t.r = 0 THEN t.f ELSE Flat([i \in DOMAIN t.c |-> Yield(t.c[i])])
Fits(c, k, V) == IF c.t = "r" THEN k.r # 0 /\ k.p = c.p /\ Len(Rules[k.r].ar) = Len(c.ar)
                 ELSE k.r = 0 /\ k.t = c.t /\ (c.t = "w" => k.f = c.f)
Follows(t, V) == t.r = 0 \/ /\ \E v \in V : v.r = t.r /\ v.lhs = t.p /\ Len(v.rhs) = Len(t.c) /\ \A i \in DOMAIN t.c : Fits(v.rhs[i], t.c[i], V)
                            /\ \A i \in DOMAIN t.c : Follows(t.c[i], V)

\* the number of ways, by adding and multiplying
RECURSIVE Ways(_, _, _, _, _, _), Divide(_, _, _, _, _, _, _)
Ways(V, tx, re, cat, i, j) ==  \* cat: <<name, number of arguments>>
    LET vs == {v \in V : v.lhs = cat[1] /\ v.n = cat[2]}
        F[S \in SUBSET vs] == IF S = {} THEN 0 ELSE LET v == CHOOSE v \in S : TRUE IN Divide(V, tx, re, v.rhs, 1, i, j) + F[S \ {v}]
    IN F[vs]
Divide(V, tx, re, rhs, k, i, j) ==
    LET One(m) == IF rhs[k].t = "r" THEN Ways(V, tx, re, <<rhs[k].p, Len(rhs[k].ar)>>, i, m)
                  ELSE Cardinality(Tokens(rhs[k], tx, re, i, m))
        F[m \in i..j] == IF m = i THEN 0 ELSE F[m - 1] + (IF j - m < Len(rhs) - k THEN 0 ELSE LET x == One(m) IN IF x = 0 THEN 0 ELSE x * Divide(V, tx, re, rhs, k + 1, m, j))
    IN IF k = Len(rhs) THEN One(j) ELSE F[j]

Agree ==
    LET tx == Collapse(text)  re == Re(tx)  V == Variants(Rules)  ts == TreesFor(V, tx, re, Root)
        chart == Chart(V, tx, re)
    IN g # <<>> =>
       /\ (ts # {}) = (tx # <<>> /\ Accepted_(tx, chart))
       /\ \A t \in ts : LowerSeq(Yield(t)) = LowerSeq(tx) /\ t.p = Root /\ Follows(t, V)
       /\ tx # <<>> => Cardinality(ts) = Ways(V, tx, re, <<Root, 0>>, 0, Len(tx)) + Ways(V, tx, re, <<Root, 1>>, 0, Len(tx))
       /\ Len(g) > 1 => TreesFor(Variants(SubSeq(Rules, 1, Len(g) - 1)), tx, re, Root) \subseteq ts
       /\ \A t, u \in ts : Before(Rules, t, u) \/ Before(Rules, u, t)

\* what was recognised before the unknown part could not have been refused: whatever part of a longer
\* sentence the text begins with, up to the end of a word, is recognised
RECURSIVE WordEnds(_, _)
WordEnds(t, i) == IF t.r = 0 THEN {i + Len(t.f)}
                  ELSE UNION {WordEnds(t.c[k], i + Len(Flat([m \in 1..(k - 1) |-> Yield(t.c[m])]))) : k \in DOMAIN t.c}
Furthest ==
    LET tx == Collapse(text)  V == Variants(Rules) IN
    g # <<>> /\ Prefixes =>
       LET m == Reached(tx, Re(tx), Chart(V, tx, Re(tx))) IN
       \A u \in {u \in Texts : Collapse(u) = u /\ u # <<>>} :
          \A t \in TreesFor(V, u, Re(u), Root) :
             \A e \in WordEnds(t, 0) : e <= Len(tx) /\ SubSeq(u, 1, e) = SubSeq(tx, 1, e)
                                        \* a regular expression may see what comes after
                                        /\ (\E i \in DOMAIN Rules, k \in 1..3 : k \in DOMAIN Rules[i].rhs /\ Rules[i].rhs[k].t = "x") = FALSE
                                        => m >= e
==============================================================================
