---------------------------- MODULE MC_RuleText ------------------------------
(* Every text of a few tokens after a prefix: the reading does not depend on *)
(* white space and comments, and reading is compositional. Every text is     *)
(* replayed in the code.                                                     *)
EXTENDS RuleText, Json
CONSTANTS MaxLen, Prefixes
VARIABLES prefix, toks
vars == <<prefix, toks>>

\* p( X ) , . :- ; 0 'a'
Alphabet == {<<112>>, <<40>>, <<88>>, <<41>>, <<44>>, <<46>>, <<58, 45>>, <<59>>, <<48>>, <<39, 97, 39>>}
PrefixOf == [none |-> <<>>,
             args |-> << <<112>>, <<40>> >>,                                     \* p(
             body |-> << <<112>>, <<40>>, <<41>>, <<58, 45>> >>,                 \* p():-
             group |-> << <<112>>, <<40>>, <<41>>, <<58, 45>>, <<40>> >>,        \* p():-(
             next |-> << <<112>>, <<40>>, <<41>>, <<46>> >>,                     \* p().
             alts |-> << <<112>>, <<40>>, <<41>>, <<58, 45>>, <<40>>, <<112>>, <<40>>, <<41>> >>,   \* p():-(p()
             list |-> << <<112>>, <<40>>, <<40>>, <<112>>, <<40>>, <<41>> >>]    \* p((p()
Spaced(ts, sep) == Flat([i \in DOMAIN ts |-> sep \o ts[i]]) \o sep
Space == <<32>>
Comment == <<35, 39, 46, 10>>
All == PrefixOf[prefix] \o toks
Text(sep) == Spaced(All, sep)

Init == prefix \in Prefixes /\ toks = <<>>
Next == /\ Len(toks) < MaxLen
        /\ \E t \in Alphabet : toks' = Append(toks, t)
        /\ UNCHANGED prefix
        /\ PrintT("@@B " \o ToJson([text |-> Spaced(PrefixOf[prefix] \o toks', Space)]))
Spec == Init /\ [][Next]_vars

SpaceIsNothing == Read(Text(Space)) = Read(Text(Comment))
\* a text that is read goes on being read the same when another rule follows
Fact == <<113, 40, 41, 46>>
FactV == [head |-> AtomV(<<113>>, <<>>), body |-> <<>>]
Compositional == LET r == Read(Text(Space)) IN
    r.ok => Read(Text(Space) \o Fact) = [r EXCEPT !.v = Append(r.v, FactV)]
==============================================================================
