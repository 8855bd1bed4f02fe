-------------------------------- MODULE Util --------------------------------
(* Sequences, terms and bindings shared by all modules.                     *)
(* A term is a record tagged by k:                                          *)
(*   [k |-> "v", n |-> name]        variable                                *)
(*   [k |-> "rv", n |-> name]       reified variable                        *)
(*   [k |-> "s", s |-> string]      string constant                         *)
(*   [k |-> "i", i |-> int]         integer constant                        *)
(*   [k |-> "q", n |-> a, d |-> b]  rational (a Python float), lowest terms,*)
(*                                  never whole: Python has 2.0 = 2        *)
(*   [k |-> "o", o |-> repr]        any other value, opaque                 *)
(*   [k |-> "g", i |-> number]      a grammar rule that can be learned      *)
(*   [k |-> "n"]                    None: an open value                     *)
(*   [k |-> "l", l |-> seq]         list                                    *)
(*   [k |-> "t", t |-> seq]         tuple, in particular an atom            *)
EXTENDS Integers, Sequences, FiniteSets, TLC

None == [k |-> "n"]
Str(x) == [k |-> "s", s |-> x]
Int_(x) == [k |-> "i", i |-> x]
VarT(x) == [k |-> "v", n |-> x]
ListT(x) == [k |-> "l", l |-> x]
TupT(x) == [k |-> "t", t |-> x]

IsVar(t) == t.k = "v"
IsStr(t) == t.k = "s"
IsNone(t) == t.k = "n"

Abs(n) == IF n < 0 THEN -n ELSE n
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
\* rational a/b as a term; b > 0
Rat(a, b) == LET g == Gcd(Abs(a), b) IN
             IF b = g THEN [k |-> "i", i |-> a \div g] ELSE [k |-> "q", n |-> a \div g, d |-> b \div g]

IsNum(t) == t.k \in {"i", "q"}
Num(t) == IF t.k = "i" THEN t.i ELSE t.n
Den(t) == IF t.k = "i" THEN 1 ELSE t.d
NumLess(a, b) == Num(a) * Den(b) < Num(b) * Den(a)
\* int with int stays int, anything with a float is a float
AddN(a, b) == IF a.k = "i" /\ b.k = "i" THEN Int_(a.i + b.i)
              ELSE Rat(Num(a) * Den(b) + Num(b) * Den(a), Den(a) * Den(b))
MulN(a, b) == IF a.k = "i" /\ b.k = "i" THEN Int_(a.i * b.i)
              ELSE Rat(Num(a) * Num(b), Den(a) * Den(b))

-----------------------------------------------------------------------------
\* sequences
Range(s) == {s[i] : i \in DOMAIN s}
InSeq(x, s) == \E i \in DOMAIN s : s[i] = x
AddNew(s, x) == IF InSeq(x, s) THEN s ELSE Append(s, x)

RECURSIVE AddAllNewFrom(_, _, _)
AddAllNewFrom(s, xs, i) == IF i > Len(xs) THEN s ELSE AddAllNewFrom(AddNew(s, xs[i]), xs, i + 1)
AddAllNew(s, xs) == AddAllNewFrom(s, xs, 1)
Dedup(xs) == AddAllNew(<<>>, xs)

RECURSIVE FlatFrom(_, _)
FlatFrom(ss, i) == IF i > Len(ss) THEN <<>> ELSE ss[i] \o FlatFrom(ss, i + 1)
Flat(ss) == FlatFrom(ss, 1)

MapSeq(s, F(_)) == [i \in DOMAIN s |-> F(s[i])]
Filter(s, P(_)) == SelectSeq(s, P)

RECURSIVE SumFrom(_, _)
SumFrom(s, i) == IF i > Len(s) THEN 0 ELSE s[i] + SumFrom(s, i + 1)
SumSeq(s) == SumFrom(s, 1)

MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y

RemoveAt(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
IndexOf(s, x) == CHOOSE i \in DOMAIN s : s[i] = x /\ \A j \in DOMAIN s : j < i => s[j] # x
Count(s, x) == Cardinality({i \in DOMAIN s : s[i] = x})
SameBag(s, t) == Len(s) = Len(t) /\ \A i \in DOMAIN s : Count(s, s[i]) = Count(t, s[i])

-----------------------------------------------------------------------------
\* bindings: functions from variable names to terms
NoB == [x \in {} |-> 0]
Fn(r) == [x \in DOMAIN r |-> r[x]]
Ext(b, n, t) == (n :> t) @@ b
Restrict(b, S) == [x \in (DOMAIN b) \cap S |-> b[x]]
Without(b, S) == [x \in (DOMAIN b) \ S |-> b[x]]

\* the names of all variables in a term, at any depth
RECURSIVE VarsOf(_)
VarsOf(t) == CASE t.k = "v" -> {t.n}
               [] t.k = "l" -> UNION {VarsOf(t.l[i]) : i \in DOMAIN t.l}
               [] t.k = "t" -> UNION {VarsOf(t.t[i]) : i \in DOMAIN t.t}
               [] OTHER -> {}
VarsOfSeq(ts) == UNION {VarsOf(ts[i]) : i \in DOMAIN ts}

\* substitute bound variables, at any depth
RECURSIVE Subst(_, _)
Subst(t, b) == CASE t.k = "v" -> IF t.n \in DOMAIN b THEN b[t.n] ELSE t
                 [] t.k = "l" -> ListT([i \in DOMAIN t.l |-> Subst(t.l[i], b)])
                 [] t.k = "t" -> TupT([i \in DOMAIN t.t |-> Subst(t.t[i], b)])
                 [] OTHER -> t

Pred(atom) == atom.t[1].s
Args(atom) == SubSeq(atom.t, 2, Len(atom.t))
=============================================================================
