------------------------------ MODULE MC_Multi -------------------------------
(* All behaviours of a multilingual pipeline: language selector, multilingual*)
(* processor, one more processor. Each language has its own processor; one   *)
(* of the languages may lack one.                                            *)
EXTENDS Pipeline
CONSTANTS MaxProds, MaxCalls
VARIABLES m, os
vars == <<m, os>>
Locales == <<"nl", "en">>
SelBlock(k) == [kind |-> k, sel |-> TRUE, procs |-> [any |-> "sel"]]
MultiBlock(k, ls) == [kind |-> k, sel |-> FALSE, procs |-> [x \in ls |-> "P@" \o x]]
Block(k) == [kind |-> k, sel |-> FALSE, procs |-> [any |-> "Q"]]
Kinds == {"one", "all", "first"}
Pipes == {<<SelBlock("one"), MultiBlock(k1, ls), Block(k2)>> : k1 \in Kinds, k2 \in Kinds, ls \in (SUBSET {"nl", "en"}) \ {{}}}
Prods(k) == [i \in 1..k |-> ToString(Len(os)) \o "." \o ToString(i)]
Outs == IF m.pipe[m.due].sel THEN {[err |-> "", args |-> <<>>, prods |-> Locales]}
        ELSE {[err |-> "", args |-> <<>>, prods |-> Prods(k)] : k \in 1..MaxProds}
             \cup {[err |-> e, args |-> <<ToString(Len(os))>>, prods |-> <<>>] : e \in {"e1", "e2"}}
Init == m \in {Fresh0(p) : p \in Pipes} /\ os = <<>>
Next == /\ ~m.done /\ Len(os) < MaxCalls
        /\ IF Due(m) = "" THEN m' = Raised(m) /\ UNCHANGED os
           ELSE \E o \in Outs : m' = Outcome(m, o) /\ os' = Append(os, o)
Spec == Init /\ [][Next]_vars

\* each language is processed by its own processor
OwnProcessor == ~m.done /\ Len(m.frames) = 1 /\ Due(m) # "" => Due(m) = "P@" \o Locale(m)
\* the answer is in the first language that is accepted; otherwise the error is that of the first language
FirstLanguage ==
    m.done /\ ~m.raised =>
       LET r == Denote(<<m.pipe[2], m.pipe[3]>>, 1, os, 2) IN
       IF r.err = "" THEN m.err = "" /\ m.cur[1] = "nl" /\ r.k = Len(os) + 1
       ELSE LET r2 == Denote(<<m.pipe[2], m.pipe[3]>>, 1, os, r.k) IN
            IF r2.err = "" THEN m.err = "" /\ m.cur[1] = "en" ELSE m.err = r.err /\ m.args = r.args
MissingIsError == m.raised => \E x \in {"nl", "en"} : x \notin DOMAIN m.pipe[2].procs
==============================================================================
