--------------------------- MODULE Trace_Optimize ----------------------------
(* Validates recorded optimisations: the plan (C17) and its answers (C16).   *)
EXTENDS TraceBase, Solve, Optimize

VARIABLES l, st, sizes
vars == <<l, st, sizes>>
Init == l = 1 /\ st = <<>> /\ sizes = NoB

Bindings(rs) == [i \in DOMAIN rs |-> Fn(rs[i])]
\* the order in which goals are evaluated shows in the lists that find_all collects; they count as collections
Loose(b) == [x \in DOMAIN b |-> IF b[x].k = "l" THEN [k |-> "collection", of |-> Range(b[x].l)] ELSE b[x]]
Project(rs, S) == {Loose(Restrict(rs[i], S)) : i \in DOMAIN rs}

Answers(ev, r) ==
    LET S == Range(ev.roots)
        want == Project(r.r, S)
    IN IF r.e \* the query as composed fails: outside the domain of the property
       THEN TRUE
       ELSE /\ Check(ev, ~ev.out.e, "optimising and solving raise nothing", want)
            /\ IF ev.out.e THEN TRUE
               ELSE /\ Check(ev, Project(Bindings(ev.out.r), S) = want, "same answers", want)
                    /\ Check(ev, Project(Bindings(ev.out.plain), S) = want, "the query as composed has these answers", want)

PlanJudged(ev) ==
    IF Malformed(Front(ev.goals), sizes)
    THEN Check(ev, ev.out.pe, "a size for each argument", "")
    ELSE \E want \in {Plan(ev.goals, Range(ev.roots), sizes)} :
         /\ Check(ev, ~ev.out.pe, "optimising raises nothing", want)
         /\ Check(ev, ev.out.pe \/ ev.out.plan = want, "the plan", want)

Step(ev) ==
    CASE ev.op = "init" -> st' = ev.mods /\ sizes' = ev.sizes
      [] ev.op = "optimised" ->
            /\ IF "answers" \in Range(ev.judge) THEN \E r \in {SolveQ(ev.goals, NoB, st)} : Answers(ev, r) ELSE TRUE
            /\ IF "plan" \in Range(ev.judge) THEN PlanJudged(ev) ELSE TRUE
            /\ UNCHANGED <<st, sizes>>
      [] OTHER -> Report(ev, "the code completes the case", "") /\ UNCHANGED <<st, sizes>>

Next == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
==============================================================================
