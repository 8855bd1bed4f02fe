------------------------------ MODULE MC_Cache -------------------------------
(* The design of the cache: results are written to a file of the process's   *)
(* own and then renamed. Every interleaving of the file operations of two    *)
(* processes, with at most MaxCrash deaths and MaxDamage damages. The        *)
(* interleavings are replayed, step by step, in the code.                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Procs, Sels, MaxCrash, MaxDamage
VARIABLES pc, sel, got, final, own, hist, crashes, damages, sure
vars == <<pc, sel, got, final, own, hist, crashes, damages, sure>>

Nothing == [s |-> 0, whole |-> FALSE]
Init == /\ pc = [p \in Procs |-> "new"] /\ sel = [p \in Procs |-> 0] /\ got = [p \in Procs |-> 0]
        /\ final = [s \in Sels |-> Nothing] /\ own = [p \in Procs |-> Nothing]
        /\ hist = <<>> /\ crashes = 0 /\ damages = 0 /\ sure = {}

Log(x) == hist' = Append(hist, x)
Start(p) == /\ pc[p] = "new"
            /\ \A q \in Procs : q < p => pc[q] # "new"
            /\ \E s \in Sels : sel' = [sel EXCEPT ![p] = s] /\ Log([a |-> "start", p |-> p, s |-> s])
            /\ pc' = [pc EXCEPT ![p] = "read"]
            /\ UNCHANGED <<got, final, own, crashes, damages, sure>>
To(p, where) == pc' = [pc EXCEPT ![p] = where]
Step(p) ==
    /\ Log([a |-> "step", p |-> p, s |-> 0])
    /\ UNCHANGED <<sel, crashes, damages>>
    /\ CASE pc[p] = "read" ->
              /\ IF final[sel[p]].whole
                 THEN got' = [got EXCEPT ![p] = final[sel[p]].s] /\ To(p, "done")
                 ELSE To(p, "fetch") /\ UNCHANGED got
              /\ UNCHANGED <<final, own, sure>>
         [] pc[p] = "fetch" -> To(p, "open") /\ UNCHANGED <<got, final, own, sure>>
         [] pc[p] = "open" -> To(p, "write") /\ own' = [own EXCEPT ![p] = [s |-> sel[p], whole |-> FALSE]] /\ UNCHANGED <<got, final, sure>>
         [] pc[p] = "write" -> To(p, "rename") /\ own' = [own EXCEPT ![p] = [s |-> sel[p], whole |-> TRUE]] /\ UNCHANGED <<got, final, sure>>
         [] pc[p] = "rename" -> /\ final' = [final EXCEPT ![sel[p]] = own[p]]
                                /\ own' = [own EXCEPT ![p] = Nothing]
                                /\ got' = [got EXCEPT ![p] = sel[p]]
                                /\ sure' = IF own[p].whole THEN sure \cup {sel[p]} ELSE sure \ {sel[p]}
                                /\ To(p, "done")
         [] OTHER -> FALSE
Crash(p) == /\ pc[p] \notin {"new", "done", "dead"} /\ crashes < MaxCrash
            /\ crashes' = crashes + 1 /\ To(p, "dead") /\ Log([a |-> "crash", p |-> p, s |-> 0])
            /\ UNCHANGED <<sel, got, final, own, damages, sure>>
Damage == /\ damages < MaxDamage /\ damages' = damages + 1 /\ hist # <<>>
          /\ \E s \in Sels : final[s].whole
          /\ final' = [s \in Sels |-> [final[s] EXCEPT !.whole = FALSE]]
          /\ own' = [p \in Procs |-> [own[p] EXCEPT !.whole = FALSE]]
          /\ sure' = {} /\ Log([a |-> "damage", p |-> 0, s |-> 0])
          /\ UNCHANGED <<pc, sel, got, crashes>>
Over == \A p \in Procs : pc[p] \in {"done", "dead"}
Print_ == Over' => PrintT("@@B " \o ToJson([h |-> hist']))
Next == /\ ~ Over
        /\ (Damage \/ \E p \in Procs : Start(p) \/ Step(p) \/ Crash(p))
        /\ Print_
Spec == Init /\ [][Next]_vars

\* whatever is returned is what was selected
Transparent == \A p \in Procs : got[p] # 0 => got[p] = sel[p]
\* a file under its final name is complete unless it was damaged, and holds the result of its selection
NeverTorn == \A s \in Sels : /\ final[s].s \in {0, s}
                             /\ (final[s].s # 0 /\ ~ final[s].whole) => damages > 0
\* what was stored stays, until it is damaged
Kept == \A s \in sure : final[s].whole
==============================================================================
