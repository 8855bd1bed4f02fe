----------------------------- MODULE MC_Context -----------------------------
(* All small programs that start, end, use and nest two contexts, as a       *)
(* history of questions: a context is active from its start to its end, and  *)
(* a context that encloses goals is active during those goals only, unless   *)
(* it was active before. Every history is printed, to be replayed.           *)
EXTENDS Solve, Json
CONSTANTS MaxLen, MaxBody, Deep
VARIABLES st, active, marks, ok, hist
vars == <<st, active, marks, ok, hist>>

A(p, as) == TupT(<<Str(p)>> \o as)
Names == {"a", "b"}
Flat_ == {A(p, <<Str(n)>>) : p \in {"start_context", "end_context", "context"}, n \in Names}
         \cup {A("nonsense", <<>>), A("store", <<ListT(<<A("p", <<Str("m")>>)>>)>>)}
Bodies(S) == UNION {[1..k -> S] : k \in 0..MaxBody}
With(n, body) == A("with_context", <<Str(n), ListT(body)>>)
Level1 == {With(n, body) : n \in Names, body \in Bodies(Flat_)}
Inner == {A("context", <<Str("a")>>), A("end_context", <<Str("a")>>), A("nonsense", <<>>),
          With("a", <<>>), With("a", <<A("nonsense", <<>>)>>), With("a", <<A("context", <<Str("b")>>), A("start_context", <<Str("b")>>)>>),
          With("b", <<A("end_context", <<Str("a")>>)>>), With("b", <<A("context", <<Str("a")>>), With("a", <<A("start_context", <<Str("a")>>)>>)>>)}
Level2 == {With(n, body) : n \in Names, body \in Bodies(Inner)}
Goals == Flat_ \cup Level1 \cup IF Deep THEN Level2 ELSE {}

Start == << [kind |-> "ctx", rels |-> [context |-> [ar |-> 1, w |-> TRUE]], rows |-> [context |-> <<>>]],
            [kind |-> "table", rels |-> [p |-> [ar |-> 1, w |-> TRUE]], rows |-> [p |-> <<>>]] >>
Init == st = Start /\ active = {} /\ marks = 0 /\ ok = TRUE /\ hist = <<>>

-----------------------------------------------------------------------------
\* what a goal does to the active contexts: [a, n: number of marks, r: "yes" | "no" | "error"]
RECURSIVE Run(_, _), RunAll(_, _)
Run(g, s) ==
    LET n == g.t[2].s IN
    CASE Pred(g) = "nonsense" -> [s EXCEPT !.r = "error"]
      [] Pred(g) = "store" -> [s EXCEPT !.n = @ + 1]
      [] Pred(g) = "start_context" -> [s EXCEPT !.a = @ \cup {n}]
      [] Pred(g) = "end_context" -> [s EXCEPT !.a = @ \ {n}]
      [] Pred(g) = "context" -> [s EXCEPT !.r = IF n \in s.a THEN "yes" ELSE "no"]
      [] OTHER -> LET t == RunAll(g.t[3].l, [s EXCEPT !.a = @ \cup {n}])
                  IN [t EXCEPT !.a = IF n \in s.a THEN @ ELSE @ \ {n}, !.r = IF @ = "error" THEN "error" ELSE "yes"]
RunAll(gs, s) == IF gs = <<>> \/ s.r # "yes" THEN s ELSE RunAll(Tail(gs), Run(gs[1], s))

Next == /\ Len(hist) < MaxLen
        /\ \E g \in Goals :
              \E r \in {SolveQ(<<g>>, NoB, st)}, s \in {Run(g, [a |-> active, n |-> marks, r |-> "yes"])} :
                 /\ st' = r.s /\ active' = s.a /\ marks' = s.n
                 /\ ok' = (r.e = (s.r = "error") /\ (r.r # <<>>) = (s.r = "yes"))
                 /\ hist' = Append(hist, g)
                 /\ IF Len(hist') = MaxLen THEN PrintT("@@B " \o ToJson(hist')) ELSE TRUE
Spec == Init /\ [][Next]_vars
SameOutcome == ok
SameActive == {st[1].rows["context"][i][1].s : i \in DOMAIN st[1].rows["context"]} = active
SameMarks == Len(st[2].rows["p"]) = marks
==============================================================================
