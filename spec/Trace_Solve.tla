----------------------------- MODULE Trace_Solve -----------------------------
(* Validates recorded histories of the goal interpreter: solving, storing,   *)
(* learning, contexts, clearing.                                             *)
EXTENDS TraceBase, Solve

VARIABLES l,   \* next event
          st   \* the model: modules with their facts and rules
vars == <<l, st>>

Init == l = 1 /\ st = <<>>

\* bindings as recorded -> functions
Bindings(rs) == [i \in DOMAIN rs |-> Fn(rs[i])]

\* after something unspecified has happened, nothing is judged until the next case
Undefined == <<[kind |-> "undefined"]>>

Step(ev) ==
    CASE ev.op \notin {"init", "broken"} /\ st = Undefined -> st' = st
      [] ev.op = "init" -> st' = ev.mods
      [] ev.op = "solve" ->
            LET r == SolveQ(ev.goals, Fn(ev.b), st) IN
            IF IsUnd(r) THEN st' = Undefined
            ELSE
            /\ Check(ev, ev.out.e = r.e, "error iff the specification says so", [e |-> r.e, r |-> r.r])
            /\ IF r.e \/ ev.out.e THEN TRUE
               ELSE IF ev.ordered
               THEN Check(ev, Bindings(ev.out.r) = r.r, "answers in order", r.r)
               ELSE Check(ev, SameBag(Bindings(ev.out.r), r.r), "answers", r.r)
            /\ Check(ev, Fn(ev.bafter) = Fn(ev.b), "the caller's binding is unchanged", ev.b)
            /\ st' = r.s
      [] ev.op = "write" ->
            LET r == WriteAtom(ev.atom, st) IN
            /\ Check(ev, ev.out.e = r.e, "error iff the specification says so", r.e)
            /\ st' = r.s
      [] ev.op = "clear" ->
            /\ Check(ev, ~ev.out.e, "clearing raises nothing", FALSE)
            /\ st' = [st EXCEPT ![ev.m].rows = [p \in DOMAIN @ |-> <<>>]]
      \* all facts, read from the data source itself
      [] ev.op = "facts" ->
            /\ Check(ev, ev.out.e = FALSE /\ SameBag(ev.out.r, st[ev.m].rows[ev.p]), "stored facts", st[ev.m].rows[ev.p])
            /\ st' = st
      [] OTHER -> Report(ev, "the code completes the case", "") /\ st' = st

Next == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
==============================================================================
