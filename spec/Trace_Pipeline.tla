--------------------------- MODULE Trace_Pipeline ----------------------------
(* Validates recorded runs of the pipeline (C06, C23), call by call.         *)
EXTENDS TraceBase, Pipeline

VARIABLES l, m, ok \* ok: no mismatch so far in this run
vars == <<l, m, ok>>
Init == l = 1 /\ m = Fresh0(<<>>) /\ ok = TRUE

SeqFn(r) == [d \in DOMAIN r |-> r[d]]

Step(ev) ==
    CASE ev.op = "start" -> m' = Fresh0(ev.pipe) /\ ok' = TRUE
      [] ev.op = "broken" -> Report(ev, "the code completes the case", "") /\ UNCHANGED <<m, ok>>
      [] ~ok -> UNCHANGED <<m, ok>>   \* reported already
      [] ev.op = "call" ->
            LET fits == ~m.done /\ Due(m) = ev.proc /\ Due(m) # "" /\ ev.d = m.due /\ Seen(m) = SeqFn(ev.seen)
                b == m.pipe[m.due]
            IN
            /\ Check(ev, fits, "the next call", IF m.done THEN <<"done">> ELSE <<Due(m), m.due, Seen(m)>>)
            \* the languages are tried in the order listed
            /\ IF fits /\ b.sel THEN Check(ev, ev.out = [err |-> "", args |-> <<>>, prods |-> b.locales], "the languages as listed", b.locales) ELSE TRUE
            /\ ok' = fits
            /\ m' = IF fits THEN Outcome(m, ev.out) ELSE m
      [] ev.op = "finish" ->
            LET m2 == IF ~m.done /\ Due(m) = "" THEN Raised(m) ELSE m IN
            /\ Check(ev, m2.done, "every alternative that should be tried is tried", [due |-> m2.due])
            /\ IF ~m2.done THEN TRUE ELSE
               /\ Check(ev, ev.raised = m2.raised, "error iff the specification says so", m2.raised)
               /\ IF m2.raised \/ ev.raised THEN TRUE ELSE
                  /\ Check(ev, ev.err = m2.err /\ ev.args = m2.args, "outcome", [err |-> m2.err, args |-> m2.args])
                  /\ Check(ev, \A d \in DOMAIN m2.alts : ev.alts[d] = m2.alts[d], "the alternatives kept", m2.alts)
                  /\ Check(ev, m2.err # "" \/ ev.answer = m2.cur[Len(m2.pipe)], "the answer", m2.cur)
                  /\ Check(ev, ev.stored = IF m2.err = "" THEN <<>> ELSE <<<<"output_type", m2.err>>, <<"output_" \o m2.err>> \o m2.args>>,
                           "the error is stored as output", m2.err)
            /\ m' = m2 /\ ok' = TRUE
      [] OTHER -> Report(ev, "the code completes the case", "") /\ UNCHANGED <<m, ok>>

Next == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
==============================================================================
