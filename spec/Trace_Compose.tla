---------------------------- MODULE Trace_Compose ----------------------------
(* Validates the recorded compositions of a dialogue (C07, C08).             *)
EXTENDS TraceBase, Compose, SequencesExt

VARIABLES l, g,
          n,     \* number of sentences so far
          pairs  \* <<variable of the specification, variable of the code>>, over the whole dialogue
vars == <<l, g, n, pairs>>

Init == l = 1 /\ g = <<>> /\ n = 0 /\ pairs = {}

Compared(ev, want, roots) ==
    LET parts == <<Match(want.sem, ev.out.sem), MatchSeq(want.exe, ev.out.exe.l), MatchSeq(want.dlg, ev.out.dlg.l),
                   MatchSeq([i \in DOMAIN roots |-> VarT(roots[i])], ev.out.roots)>>
    IN Now(TLCEval(parts), LAMBDA p : [ok |-> <<p[1].ok, p[2].ok, p[3].ok>>, all |-> JoinAll(p)])

SumLengths(ss) == FoldLeft(LAMBDA k, s : k + Len(s), 0, ss)

Judge(ev, want, m) ==
    \E new \in {pairs \cup m.all.pairs} :
    /\ IF "structure" \notin Range(ev.judge) THEN TRUE ELSE
       /\ Check(ev, m.ok[1], "the meaning is composed of its parts", want.sem)
       /\ Check(ev, m.ok[2], "the executable part", want.exe)
       /\ Check(ev, m.ok[3], "the inferences", want.dlg)
    /\ IF "variables" \notin Range(ev.judge) \/ ~m.all.ok THEN TRUE ELSE
       /\ Check(ev, OneToOne(new), "variables are the same iff the grammar identifies them", want)
       /\ Check(ev, m.all.reified \subseteq {"s"}, "a reified variable yields a name", want)
    /\ pairs' = IF m.all.ok /\ OneToOne(new) THEN new ELSE pairs

Step(ev) ==
    CASE ev.op = "grammar" -> g' = ev.g /\ n' = 0 /\ pairs' = {}
      [] ev.op = "compose" ->
            /\ n' = n + 1
            /\ UNCHANGED g
            /\ LET roots == [i \in DOMAIN g[ev.tree.r].ar |-> "s" \o ToString(n) \o "#" \o ToString(i)] IN
               IF ~HasMeaning(g, ev.tree)
               THEN /\ Check(ev, ev.out.e \/ "structure" \notin Range(ev.judge), "a tree with a rule without meaning is rejected", "")
                    /\ UNCHANGED pairs
               ELSE \E want \in {MeaningOf(g, ev.tree, roots, "s" \o ToString(n))} :
                    IF ev.out.e
                    THEN Report(ev, "composition raises nothing", want) /\ UNCHANGED pairs
                    ELSE \E m \in {Compared(ev, want, roots)} : Judge(ev, want, m)
      \* the variables of the sentences of a long dialogue
      [] ev.op = "long" ->
            /\ \E all \in {UNION {Range(ev.names[i]) : i \in DOMAIN ev.names}} :
                /\ Check(ev, Cardinality(all) = SumLengths(ev.names), "sentences do not share variables", "")
                /\ Check(ev, all \cap {q[2] : q \in pairs} = {}, "sentences do not share variables", "")
            /\ UNCHANGED <<g, n, pairs>>
      [] OTHER -> Report(ev, "the code completes the case", "") /\ UNCHANGED <<g, n, pairs>>

Next == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
==============================================================================
