--------------------------- MODULE Trace_RuleText ----------------------------
(* Validates recorded readings of rule texts, and imports into a module (C21). *)
EXTENDS TraceBase, RuleText

VARIABLES l, base
vars == <<l, base>>
Init == l = 1 /\ base = <<>>

\* the rules of a module: those with a predicate, in order
Same(got, want) == Len(got) = Len(want) /\ \A i \in DOMAIN got : got[i] = want[i]

Step(ev) ==
    CASE ev.op = "init" -> base' = <<>>
      [] ev.op = "read" ->
            /\ \E want \in {Read(ev.text)} :
                  IF want.any THEN TRUE
                  ELSE IF want.ok
                  THEN Check(ev, ev.out.ok, "the text is read", want.v)
                       /\ Check(ev, ~ ev.out.ok \/ Same(ev.out.v, want.v), "the rules as written, in order", want.v)
                  ELSE Check(ev, ~ ev.out.ok, "the text is rejected", "")
            /\ UNCHANGED base
      [] ev.op = "import" ->
            \* all rules of the file, or none
            \E want \in {Read(ev.text)} :
                  LET now == IF want.ok THEN base \o want.v ELSE base IN
                  /\ Check(ev, ev.out.ok = want.ok, "the file is imported iff it is in the notation", want.ok)
                  /\ Check(ev, \A i \in DOMAIN ev.preds :
                                  Same(ev.rules[i], SelectSeq(now, LAMBDA r : r.head.t[1].c = ev.preds[i])),
                           "the rules of every predicate, in order", now)
                  /\ Check(ev, \A i \in DOMAIN now : InSeq(now[i].head.t[1].c, ev.preds), "every predicate is defined", now)
                  /\ base' = now
      [] OTHER -> Report(ev, "the code completes the case", "") /\ UNCHANGED base

Next == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
==============================================================================
