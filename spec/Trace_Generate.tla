--------------------------- MODULE Trace_Generate ----------------------------
(* Validates recorded histories of storing output and reading it (C18, C19). *)
EXTENDS TraceBase, Generate

VARIABLES l, st, g
vars == <<l, st, g>>
Init == l = 1 /\ st = <<>> /\ g = [rules |-> <<>>]
Undefined == <<[kind |-> "undefined"]>>

Step(ev) ==
    CASE ev.op \notin {"init", "broken"} /\ st = Undefined -> UNCHANGED <<st, g>>
      [] ev.op = "init" -> st' = ev.mods /\ g' = [rules |-> ev.rules, texts |-> ev.texts, ob |-> ev.ob]
      [] ev.op = "read" ->
            \E r \in {Read(g.rules, g.texts, g.ob, st)} :
                /\ IF r.u THEN TRUE
                   ELSE /\ Check(ev, ev.out.e = r.e, "error iff the specification says so", [e |-> r.e, v |-> r.v])
                        /\ Check(ev, r.e \/ ev.out.e \/ ev.out.v = r.v, "the output", r.v)
                /\ st' = IF r.u THEN Undefined ELSE r.s
                /\ UNCHANGED g
      [] ev.op = "write" ->
            \E r \in {WriteAtom(ev.atom, st)} :
                /\ Check(ev, ev.out.e = r.e, "error iff the specification says so", r.e)
                /\ st' = r.s /\ UNCHANGED g
      [] ev.op = "solve" ->
            \E r \in {SolveQ(ev.goals, NoB, st)} :
                IF IsUnd(r) THEN st' = Undefined /\ UNCHANGED g
                ELSE /\ Check(ev, ev.out.e = r.e, "error iff the specification says so", r.e)
                     /\ Check(ev, r.e \/ ev.out.e \/ [i \in DOMAIN ev.out.r |-> Fn(ev.out.r[i])] = r.r, "answers in order", r.r)
                     /\ st' = r.s /\ UNCHANGED g
      [] ev.op = "facts" ->
            /\ Check(ev, ~ ev.out.e /\ SameBag(ev.out.r, st[ev.m].rows[ev.p]), "stored facts", st[ev.m].rows[ev.p])
            /\ UNCHANGED <<st, g>>
      [] OTHER -> Report(ev, "the code completes the case", "") /\ UNCHANGED <<st, g>>

Next == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
==============================================================================
