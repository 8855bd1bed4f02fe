---------------------------- MODULE Trace_Cache ------------------------------
(* Validates recorded histories of processes that share a cache (C20).       *)
EXTENDS TraceBase, Cache

VARIABLES l, tables, cached, kept, busy
vars == <<l, tables, cached, kept, busy>>
Init == l = 1 /\ tables = NoB /\ cached = {} /\ kept = NoB /\ busy = NoB

SelOf(ev) == Sel(ev.src, ev.t, ev.cols, ev.vals)
\* the selection s of a process ended
Ended(ev, s, before, sure) ==
    /\ \E want \in {Rows(tables, s)} : Check(ev, RightRows(want, ev.out), "the rows that the endpoint has", want)
    /\ Check(ev, RightError(ev.out, ev.sent, ev.fail # 0), "an error iff the endpoint refuses", "")
    /\ Check(ev, NotSentAgain(before, ev.sent), "a cached selection is not sent again", "")
    /\ kept' = IF s.src \in cached /\ ~ ev.out.e THEN Remember(kept, s, sure) ELSE kept

Step(ev) ==
    CASE ev.op = "init" -> tables' = NoB /\ cached' = Range(ev.cached) /\ kept' = NoB /\ busy' = NoB
      [] ev.op = "fill" -> tables' = (ev.t :> [i \in DOMAIN ev.rows |-> [cols |-> ev.cols, vals |-> ev.rows[i]]]) @@ tables
                           /\ UNCHANGED <<cached, kept, busy>>
      [] ev.op = "select" -> /\ Ended(ev, SelOf(ev), Kept(kept, SelOf(ev)), TRUE)
                             /\ UNCHANGED <<tables, cached, busy>>
      \* the disk is full
      [] ev.op = "full" -> /\ Ended(ev, SelOf(ev), Kept(kept, SelOf(ev)), FALSE)
                           /\ UNCHANGED <<tables, cached, busy>>
      \* a process begins and may be stopped half-way; later it goes on, or dies
      [] ev.op = "begin" /\ ev.paused ->
                /\ busy' = (ev.p :> [s |-> SelOf(ev), before |-> Kept(kept, SelOf(ev)), hurt |-> FALSE]) @@ busy
                /\ UNCHANGED <<tables, cached, kept>>
      [] ev.op = "step" /\ ev.paused -> UNCHANGED <<tables, cached, kept, busy>>
      [] ev.op = "begin" -> Ended(ev, SelOf(ev), Kept(kept, SelOf(ev)), TRUE) /\ UNCHANGED <<tables, cached, busy>>
      [] ev.op = "step" -> /\ Ended(ev, busy[ev.p].s, busy[ev.p].before, ~ busy[ev.p].hurt)
                           /\ busy' = Without(busy, {ev.p})
                           /\ UNCHANGED <<tables, cached>>
      [] ev.op = "kill" -> /\ kept' = IF ev.p \in DOMAIN busy THEN Doubt(kept, {busy[ev.p].s}) ELSE kept
                           /\ busy' = Without(busy, {ev.p})
                           /\ UNCHANGED <<tables, cached>>
      \* a process that dies after a number of bytes
      [] ev.op = "crash" -> /\ IF ev.died THEN kept' = Doubt(kept, {SelOf(ev)})
                               ELSE Ended(ev, SelOf(ev), Kept(kept, SelOf(ev)), TRUE)
                            /\ UNCHANGED <<tables, cached, busy>>
      \* a process that is working on a selection may have its files damaged
      [] ev.op = "damage" -> /\ kept' = Doubt(kept, DOMAIN kept)
                             /\ busy' = [p \in DOMAIN busy |-> [busy[p] EXCEPT !.before = IF @ = "yes" THEN "maybe" ELSE @, !.hurt = TRUE]]
                             \* a directory in the place of a file: no result can be stored there
                             /\ cached' = IF ev.how = "directory" THEN {} ELSE cached
                             /\ UNCHANGED tables
      [] OTHER -> Report(ev, "the code completes the case", "") /\ UNCHANGED <<tables, cached, kept, busy>>

Next == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
==============================================================================
