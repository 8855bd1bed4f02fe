------------------------- MODULE Trace_GrammarText ---------------------------
(* Validates recorded readings of grammars, and rules learned later (C26).   *)
(* A rule is [syn |-> <<>> or <<text>>, kv |-> what stands under the other   *)
(* keys], the values being labels. What was found in a grammar: all forms of *)
(* all rules, by category and number of arguments. A form of a read rule     *)
(* that an earlier rule has as well is not used, and may be left out.        *)
EXTENDS TraceBase, GrammarText

\* lost: the grammar has a rule without a specified reading
VARIABLES l, base, lost
vars == <<l, base, lost>>
Init == l = 1 /\ base = <<>> /\ lost = FALSE

Of(r, w) == IF r.syn = <<>> THEN [ok |-> FALSE, any |-> FALSE] ELSE Read(r.syn[1], w)
Get(r, key, default) == IF \E i \in DOMAIN r.kv : r.kv[i].k = key
                        THEN (CHOOSE x \in Range(r.kv) : x.k = key).v ELSE default
\* what a rule says besides its syntax
Extra(r, w) == [sem    |-> Get(r, IF w THEN "if" ELSE "sem", "none"),
                exec   |-> Get(r, IF w THEN "format" ELSE "exec", "none"),
                post   |-> IF w THEN Get(r, "post", "none") ELSE "none",
                dialog |-> Get(r, "dialog", "[]"),
                boost  |-> Get(r, "boost", "0")]
FormsOf(r, w) == {[ar |-> x.ar, rhs |-> f] @@ Extra(r, w) : x \in {Read(r.syn[1], w)},
                                                            f \in Forms(Read(r.syn[1], w).rhs)}
Key(r, w) == <<Read(r.syn[1], w).lhs, Len(Read(r.syn[1], w).ar)>>

\* the entry found in the code: [lhs, n, forms]
KeysOf(found) == {<<found[i].lhs, found[i].n>> : i \in DOMAIN found}
Indexes(fs, x) == {k \in DOMAIN fs : x \in fs[k]}
EntryOk(ev, e, rules, w) ==
    \E fs \in {[k \in DOMAIN rules |-> IF Key(rules[k], w) = <<e.lhs, e.n>> THEN FormsOf(rules[k], w) ELSE {}]} :
       /\ \E needed \in {IF w THEN UNION Range(fs)
                        ELSE UNION {{x \in fs[k] : ~ \E q \in 1..(k - 1) : \E y \in fs[q] : y.ar = x.ar /\ y.rhs = x.rhs} : k \in DOMAIN fs}} :
             Check(ev, Range(e.forms) \subseteq UNION Range(fs) /\ needed \subseteq Range(e.forms), "the forms of the rules as written", UNION Range(fs))
       /\ Check(ev, \A i, j \in DOMAIN e.forms : i < j /\ Indexes(fs, e.forms[i]) # {} /\ Indexes(fs, e.forms[j]) # {}
                       => MinOf(Indexes(fs, e.forms[i])) <= MaxOf(Indexes(fs, e.forms[j])),
                "the rules in the order in which they were given", "")
GrammarOk(ev, rules, w) ==
    /\ Check(ev, KeysOf(ev.found) = {Key(rules[k], w) : k \in DOMAIN rules}, "every category, and no other", "")
    /\ \A i \in DOMAIN ev.found : EntryOk(ev, ev.found[i], rules, w)

Step(ev) ==
    CASE ev.op = "init" -> base' = <<>> /\ lost' = FALSE
      [] ev.op = "read" ->
            \E rs \in {[k \in DOMAIN ev.rules |-> Of(ev.rules[k], ev.write)]} :
               LET any == \E k \in DOMAIN rs : rs[k].any
                   bad == \E k \in DOMAIN rs : ~ rs[k].any /\ ~ rs[k].ok
               IN  /\ IF bad THEN Check(ev, ~ ev.ok, "a grammar with a rule that is not in the notation is rejected", "")
                      ELSE IF any THEN TRUE
                      ELSE /\ Check(ev, ev.ok, "the grammar is read", "")
                           /\ IF ev.ok THEN GrammarOk(ev, ev.rules, ev.write) ELSE TRUE
                   /\ Check(ev, ev.same, "the rules themselves are left as they were", "")
                   /\ base' = IF bad \/ any THEN <<>> ELSE ev.rules
                   /\ lost' = (bad \/ any)
      [] ev.op = "learn" ->
            \E r \in {Of(ev.rules[1], FALSE)} :
               IF lost \/ r.any THEN lost' = TRUE /\ UNCHANGED base
               ELSE \E now \in {IF r.ok THEN Append(base, ev.rules[1]) ELSE base} :
                    /\ Check(ev, ev.ok = r.ok, "the rule is learned iff it is in the notation", r.ok)
                    /\ GrammarOk(ev, now, FALSE)
                    /\ base' = now /\ UNCHANGED lost
      [] OTHER -> Report(ev, "the code completes the case", "") /\ UNCHANGED <<base, lost>>

Next == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
==============================================================================
