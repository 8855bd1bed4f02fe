----------------------------- MODULE Trace_Parse -----------------------------
(* Validates recorded histories of parsing and learning grammar rules (C01 - *)
(* C05). The state is the grammar. Field judge of a parse says which clauses *)
(* of the specification are compared.                                        *)
EXTENDS TraceBase, Parse

VARIABLES l, g,
          seen   \* text -> the readings it had, in order, since the grammar last changed
vars == <<l, g, seen>>

Init == l = 1 /\ g = <<>> /\ seen = NoB

\* the messages of the standard write grammar
SorryMessage == <<83,111,114,114,121,44,32,73,32,100,111,110,39,116,32,117,110,100,101,114,115,116,97,110,100>>
NoSentenceMessage == <<78,111,32,115,101,110,116,101,110,99,101,32,103,105,118,101,110>>
UnknownPrefix == <<67,111,117,108,100,32,110,111,116,32,117,110,100,101,114,115,116,97,110,100,58,32>>
Message(f) == CASE f.type = NotUnderstood -> SorryMessage
                [] f.type = NoSentence -> NoSentenceMessage
                [] OTHER -> UnknownPrefix \o f.args[1]

Parsed(ev) ==
    LET tx == Collapse(ev.text)
        V == Variants(g)
        out == ev.out
        J == Range(ev.judge)
    IN
    /\ Check(ev, ~out.e, "parsing raises nothing", "")
    /\ IF out.e THEN TRUE ELSE
       /\ IF "trees" \notin J THEN TRUE
          ELSE LET want == TreesFor(V, tx, ev.re, Root) IN
               /\ Check(ev, Range(out.trees) \subseteq want, "every reading is a derivation", Range(out.trees) \ want)
               /\ Check(ev, want \subseteq Range(out.trees), "every derivation is a reading", want \ Range(out.trees))
               /\ Check(ev, Len(out.trees) = Cardinality(Range(out.trees)), "no reading twice", Cardinality(want))
       /\ IF "order" \notin J THEN TRUE
          ELSE Check(ev, Ordered(g, out.trees), "readings in order of preference",
                     [i \in DOMAIN out.trees |-> <<Boost(g, out.trees[i]), Regexps(out.trees[i]), Depth(out.trees[i])>>])
       /\ IF "accept" \notin J THEN TRUE
          ELSE LET acc == Accepted_(tx, Chart(V, tx, ev.re)) IN
               Check(ev, acc = (out.trees # <<>>), "accepted iff the grammar generates it", acc)
       /\ IF "failure" \notin J THEN TRUE
          ELSE LET chart == Chart(V, tx, ev.re)
                   acc == Accepted_(tx, chart)
                   f == Failure(tx, ev.re, chart)
               IN IF acc THEN Check(ev, out.type = "" /\ out.trees # <<>>, "a sentence is understood", "")
                  ELSE Check(ev, out.trees = <<>> /\ out.type = f.type /\ out.args = f.args, "correct failure report", f)
       /\ IF "repeat" \notin J \/ ev.text \notin DOMAIN seen THEN TRUE
          ELSE Check(ev, out.trees = seen[ev.text], "the same readings as before", Len(seen[ev.text]))

Step(ev) ==
    CASE ev.op = "grammar" -> g' = ev.g /\ seen' = NoB
      [] ev.op = "learn" ->
            /\ Check(ev, ~ev.out.e, "learning raises nothing", "")
            /\ g' = Append(g, ev.rule) /\ seen' = NoB
      [] ev.op = "parse" ->
            /\ Parsed(ev)
            /\ seen' = IF ev.out.e \/ "repeat" \notin Range(ev.judge) \/ ev.text \in DOMAIN seen THEN seen
                       ELSE (ev.text :> ev.out.trees) @@ seen
            /\ UNCHANGED g
      \* through the whole system, with the standard output buffer and write grammar
      [] ev.op = "enter" ->
            LET tx == Collapse(ev.text)
                chart == Chart(Variants(g), tx, ev.re)
            IN
            /\ IF Accepted_(tx, chart)
               THEN Check(ev, ~ev.out.e /\ ev.out.ok, "a sentence is understood", "")
               ELSE LET m == Message(Failure(tx, ev.re, chart)) IN
                    /\ Check(ev, ~ev.out.e, "an unparsable text raises nothing", m)
                    /\ Check(ev, ev.out.e \/ ev.out.msg = m, "the failure is reported", m)
            /\ UNCHANGED <<g, seen>>
      [] OTHER -> Report(ev, "the code completes the case", "") /\ UNCHANGED <<g, seen>>

Next == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
==============================================================================
