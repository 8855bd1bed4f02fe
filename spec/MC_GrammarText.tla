--------------------------- MODULE MC_GrammarText ----------------------------
(* Every text of a few tokens after a prefix, in both notations: the reading *)
(* does not depend on white space, is compositional, and its forms are well  *)
(* made. Every text is replayed in the code.                                 *)
EXTENDS GrammarText, Json
CONSTANTS MaxLen, Prefixes
VARIABLES prefix, toks
vars == <<prefix, toks>>

\* s ( E1 ) , -> 'a' /b/ + ~ ?
S == <<115>>
Open == <<40>>
V == <<69, 49>>
Close == <<41>>
Arrow == <<45, 62>>
A == <<39, 97, 39>>
X == <<47, 98, 47>>
Alphabet == {S, Open, V, Close, <<44>>, Arrow, A, X, <<43>>, <<126>>, <<63>>}
Atom0 == <<S, Open, Close>>
PrefixOf == [none |-> <<>>,
             args |-> <<S, Open>>,
             rhs  |-> Atom0 \o <<Arrow>>,
             word |-> Atom0 \o <<Arrow, A>>,
             atom |-> Atom0 \o <<Arrow>> \o Atom0,
             opt  |-> Atom0 \o <<Arrow, A, <<63>> >>]
Spaced(ts, sep) == Flat([i \in DOMAIN ts |-> sep \o ts[i]]) \o sep
Space == <<32>>
All == PrefixOf[prefix] \o toks
Text(sep) == Spaced(All, sep)

Init == prefix \in Prefixes /\ toks = <<>>
Next == /\ Len(toks) < MaxLen
        /\ \E t \in Alphabet : toks' = Append(toks, t)
        /\ UNCHANGED prefix
        /\ PrintT("@@B " \o ToJson([text |-> Spaced(PrefixOf[prefix] \o toks', Space)]))
Spec == Init /\ [][Next]_vars

SpaceIsNothing == \A w \in BOOLEAN : Read(Text(Space), w) = Read(Text(<<10, 9>>), w)
\* what is read as a read rule is read the same as a write rule
WriteExtendsRead == \E r \in {Read(Text(Space), FALSE)} : r.ok => Read(Text(Space), TRUE) = r
\* a text that is read goes on being read the same when another constituent follows
Z == Item("w", <<122>>, <<>>, FALSE, " ")
Compositional == \A w \in BOOLEAN : \E r \in {Read(Text(Space), w)} :
    r.ok => \A j \in {<<" ", <<>> >>, <<"+", <<43>> >>, <<"~", <<126>> >>} :
                Read(Text(Space) \o j[2] \o <<39, 122, 39>>, w) = [r EXCEPT !.rhs = Append(r.rhs, [Z EXCEPT !.j = j[1]])]
\* the forms: no space at the ends or doubled, the constituents in order, and one form has them all
Bare(f) == SelectSeq(f, LAMBDA x : x # SpaceForm)
RECURSIVE SubFrom(_, _, _, _)
SubFrom(a, i, b, j) == i > Len(a) \/ (j <= Len(b) /\ ((a[i] = b[j] /\ SubFrom(a, i + 1, b, j + 1)) \/ SubFrom(a, i, b, j + 1)))
WellMade == \A w \in BOOLEAN : \E r \in {Read(Text(Space), w)} : r.ok =>
    \E fs \in {Forms(r.rhs)}, whole \in {[i \in DOMAIN r.rhs |-> Form(r.rhs[i])]} :
       /\ \E f \in fs : Bare(f) = whole
       /\ \A f \in fs :
            /\ f = <<>> \/ (f[1] # SpaceForm /\ f[Len(f)] # SpaceForm)
            /\ \A i \in 1..(Len(f) - 1) : f[i] # SpaceForm \/ f[i + 1] # SpaceForm
            /\ SubFrom(Bare(f), 1, whole, 1)
            /\ \A i \in DOMAIN r.rhs : (r.rhs[i].o /\ r.rhs[i].t = "w") \/ InSeq(Form(r.rhs[i]), f)
==============================================================================
