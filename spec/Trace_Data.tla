----------------------------- MODULE Trace_Data ------------------------------
(* Validates recorded histories of data sources (C14) and imports (C22).     *)
EXTENDS TraceBase, Data

VARIABLES l, store
vars == <<l, store>>
Init == l = 1 /\ store = NoB

Step(ev) ==
    CASE ev.op = "init" -> store' = NoB
      [] ev.op = "fill" -> store' = (ev.t :> [i \in DOMAIN ev.rows |-> [cols |-> ev.cols, vals |-> ev.rows[i]]]) @@ store
      [] ev.op = "insert" ->
            /\ Check(ev, ~ev.out.e, "inserting raises nothing", "")
            /\ store' = AddRecord(store, ev.t, ev.cols, ev.vals)
      [] ev.op = "clear" -> store' = NoB
      [] ev.op = "import" ->
            /\ Check(ev, ~ev.out.e, "importing raises nothing", "")
            /\ store' = Import(store, ev.t, ev.text)
      [] ev.op = "select" ->
            /\ \E want \in {Selection(store, ev.t, ev.cols, ev.vals)} :
                  /\ Check(ev, ~ev.out.e, "selecting raises nothing", want)
                  /\ Check(ev, ev.out.e \/ (IF ev.ordered THEN ev.out.r = want ELSE SameBag(ev.out.r, want)),
                           IF ev.ordered THEN "the rows, in order" ELSE "the rows", want)
            /\ UNCHANGED store
      [] OTHER -> Report(ev, "the code completes the case", "") /\ UNCHANGED store

Next == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
==============================================================================
