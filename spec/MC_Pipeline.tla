----------------------------- MODULE MC_Pipeline -----------------------------
(* All behaviours of all pipelines of at most MaxLen blocks in which every   *)
(* processor call has at most MaxProds products or fails in one of two ways. *)
EXTENDS Pipeline, Json
CONSTANTS MaxLen, MaxProds, MaxCalls, Emit

VARIABLES m, os  \* the machine, the outcomes so far
vars == <<m, os>>
Block(k) == [kind |-> k, sel |-> FALSE, procs |-> [any |-> "P"]]
Pipes == {[d \in 1..n |-> Block(ks[d])] : n \in 1..MaxLen, ks \in [1..MaxLen -> {"one", "all", "first"}]}
Prods(k) == [i \in 1..k |-> ToString(Len(os)) \o "." \o ToString(i)]
Outs == {[err |-> "", args |-> <<>>, prods |-> Prods(k)] : k \in 1..MaxProds}
        \cup {[err |-> e, args |-> IF e = "e1" THEN <<ToString(Len(os))>> ELSE <<>>, prods |-> <<>>] : e \in {"e1", "e2"}}

Init == m \in {Fresh0(p) : p \in Pipes} /\ os = <<>>
Next == /\ ~m.done
        /\ Len(os) < MaxCalls
        /\ \E o \in Outs : /\ m' = Outcome(m, o) /\ os' = Append(os, o)
                           /\ IF Emit /\ m'.done THEN PrintT("@@B " \o ToJson([pipe |-> m.pipe, os |-> os'])) ELSE TRUE
Spec == Init /\ [][Next]_vars

Agrees == m.done => LET r == Denote(m.pipe, 1, os, 1) IN
                    r.err = m.err /\ r.args = m.args /\ r.k = Len(os) + 1
\* depth first: the frames are exactly the blocks before the one that is due, each trying its current product
Consistent == ~m.done => /\ m.due = Len(m.frames) + 1
                         /\ \A d \in DOMAIN m.frames : m.cur[d] = m.frames[d].prods[m.frames[d].i]
\* a find-one block stops at the first success: no alternative after it is tried
NoneAfterSuccess == ~m.done => \A d \in DOMAIN m.frames : m.pipe[d].kind # "all" => ~m.frames[d].ok
==============================================================================
