-------------------------------- MODULE Dialog --------------------------------
(* A system in dialogue: parser, composer, executor and further processors    *)
(* in a pipeline of blocks, a model, an output generator, and a log.          *)
(*                                                                            *)
(* pipe: blocks as in Pipeline, with role |-> "select" | "parse" | "compose"  *)
(*   | "execute" | "check", and name |-> the name of the block's processor.   *)
(* A log is a sequence of entries, as text; <n> stands for colour n.          *)
EXTENDS Parse, Pipeline, Compose, Generate

-----------------------------------------------------------------------------
(* the parser *)
\* rules marked late are part of the grammar from the moment they are learned
Learned(st, name) == UNION {Range(st[i].learned) : i \in {i \in DOMAIN st : st[i].kind = "grammar" /\ st[i].g = name}}
KnownRules(rules, learned) == {k \in DOMAIN rules : ~rules[k].late \/ k \in learned}
KnownVariants(rules, learned) == Now(KnownRules(rules, learned), LAMBDA known : TLCEval({v \in Variants(rules) : v.r \in known}))

-----------------------------------------------------------------------------
(* the executor *)
\* store the inferences, run the executable part, solve the meaning
\* c: [sem, exe, dlg]; the counts of the solved goals are in the last module of the result
Counter == [kind |-> "stats", rels |-> NoB, n |-> <<>>]
Solved(sem, r) == IF r.e THEN r ELSE SolveQ(sem, NoB, r.s)
Execute(c, st) ==
    LET r1 == WriteAll(c.dlg, 1, Append(st, Counter)) IN
    IF r1.e THEN r1 ELSE Solved(c.sem, SolveQ(c.exe, NoB, r1.s))
WithoutCounter(st) == SubSeq(st, 1, Len(st) - 1)
Tallied(st) == st[Len(st)].n

\* an error of the pipeline becomes the pending output
ErrorAtoms(err, args) ==
    <<TupT(<<Str("store"), ListT(<<TupT(<<Str("output_type"), Str(err)>>), TupT(<<Str("output_" \o err)>> \o args)>>)>>)>>
Stored(err, args, st) == IF err = "" THEN Ok(<<>>, st) ELSE SolveQ(ErrorAtoms(err, args), NoB, st)

\* the processor of the harness that rejects some results
Checker(kind, answers) ==
    CASE kind = "some" /\ answers = <<>> -> "e1"
      [] kind = "none" /\ answers # <<>> -> "e2"
      [] kind = "single" /\ Len(answers) # 1 -> "e1"
      [] kind = "never" -> "e2"
      [] OTHER -> ""

-----------------------------------------------------------------------------
(* the log *)
\* cfg: [which: "all" | "last" | "none", last: is this the last test?, prod: are products logged?,
\*       sel: the blocks whose products are logged, <<>>: all, stats]
Active(cfg) == cfg.which = "all" \/ (cfg.which = "last" /\ cfg.last)
StatsOn(cfg) == Active(cfg) /\ cfg.stats
Logged(cfg, d) == Active(cfg) /\ cfg.prod /\ (cfg.sel = <<>> \/ InSeq(d, cfg.sel))

Nl == "\n"
Header(s) == "<33>" \o s \o "<0>" \o Nl
Sub(s) == "<36>" \o s \o "<0>" \o Nl
ErrorLine(s) == "<31>" \o s \o "<0>" \o Nl
Comment(s) == "<90>" \o s \o "<0>" \o Nl
KeyValue(k, v) == "<34>[" \o k \o "]<0> " \o v \o Nl
Separator(i) == "<33>~[<37> " \o ToString(i) \o " <33>]~<0>" \o Nl
Line(s) == s \o Nl

RECURSIVE JoinWith(_, _, _)
JoinWith(ss, sep, i) == IF i > Len(ss) THEN "" ELSE (IF i > 1 THEN sep ELSE "") \o ss[i] \o JoinWith(ss, sep, i + 1)

\* values: texts is a table <<value, text, representation>> for values that are not plain
RECURSIVE ReprOf(_, _), StrOf(_, _)
InTable(v, texts) == \E i \in DOMAIN texts : texts[i][1] = v
Row(v, texts) == texts[CHOOSE i \in DOMAIN texts : texts[i][1] = v]
ReprSeq(vs, texts) == JoinWith([i \in DOMAIN vs |-> ReprOf(vs[i], texts)], ", ", 1)
ReprOf(v, texts) ==
    CASE v.k = "l" -> "[" \o ReprSeq(v.l, texts) \o "]"
      [] v.k = "t" -> "(" \o ReprSeq(v.t, texts) \o (IF Len(v.t) = 1 THEN ",)" ELSE ")")
      [] v.k = "v" -> v.n
      [] v.k = "n" -> "None"
      [] v.k = "i" -> ToString(v.i)
      [] InTable(v, texts) -> Row(v, texts)[3]
      [] v.k = "s" -> "'" \o v.s \o "'"
      [] OTHER -> "?"
StrOf(v, texts) == CASE v.k = "s" -> v.s
                     [] v.k \notin {"l", "t", "v", "n", "i"} /\ InTable(v, texts) -> Row(v, texts)[2]
                     [] OTHER -> ReprOf(v, texts)

\* nested lists and tuples on lines of their own; pre: what comes before the value
RECURSIVE Formatted(_, _, _), FormattedAll(_, _, _, _, _)
FormattedAll(vs, i, sep, ind, texts) ==
    IF i > Len(vs) THEN "" ELSE (IF i > 1 THEN sep ELSE "") \o Formatted(vs[i], ind, texts) \o FormattedAll(vs, i + 1, sep, ind, texts)
Formatted(v, ind, texts) ==
    CASE v.k = "t" -> ind \o "(" \o FormattedAll(v.t, 1, ", ", ind \o "    ", texts) \o ")"
      [] v.k = "l" -> ind \o "[" \o FormattedAll(v.l, 1, "", ind \o "    ", texts) \o ind \o "]"
      [] v.k = "s" -> "'" \o v.s \o "'"
      [] OTHER -> StrOf(v, texts)
\* the same without the white space before it
FormattedTop(v, texts) ==
    IF v.k = "l" THEN "[" \o FormattedAll(v.l, 1, "", Nl \o "    ", texts) \o Nl \o "]" ELSE Formatted(v, "", texts)

\* a tree [r, t, p, s, c]: one line for each node
RECURSIVE Branches(_, _, _)
Branches(kids, i, ind) ==
    IF i > Len(kids) THEN ""
    ELSE LET k == kids[i] IN
         (IF k.r = 0
          THEN Nl \o ind \o "+- " \o (IF k.t = "x" THEN k.p ELSE k.s) \o " '" \o k.s \o "'"
          ELSE Nl \o ind \o "+- " \o k.p \o Branches(k.c, 1, ind \o (IF i < Len(kids) THEN "|  " ELSE "   ")))
         \o Branches(kids, i + 1, ind)
TreeText(t) == t.p \o Branches(t.c, 1, "")

\* the forms of a meaning, if different from the one before: sequence of <<description, list>>
RECURSIVE Forms(_, _, _)
Forms(its, i, texts) ==
    IF i > Len(its) THEN <<>>
    ELSE (IF i > 1 /\ its[i][2] = its[i - 1][2] THEN <<>> ELSE <<Sub(its[i][1]), Line(FormattedTop(its[i][2], texts))>>)
         \o Forms(its, i + 1, texts)
CompositionText(c, texts) ==
    <<Sub("Executable"), Line(Formatted(ListT(c.exe), Nl, texts)), Sub("Inferences"), Line(Formatted(ListT(c.dlg), Nl, texts)),
      Sub("Return variables"), Line(JoinWith(c.roots, ", ", 1))>> \o Forms(c.its, 1, texts)

\* bindings as sequences of <<name, value>>
PairText(p, texts) == "'" \o p[1] \o "': " \o ReprOf(p[2], texts)
BindingText(b, texts) == "{" \o JoinWith([i \in DOMAIN b |-> PairText(b[i], texts)], ", ", 1) \o "}"
AnswersText(bs, stats, texts) ==
    <<Line(JoinWith([i \in DOMAIN bs |-> BindingText(bs[i], texts)], Nl, 1))>>
    \o (IF stats = <<>> THEN <<>>
        ELSE <<Sub("Stats"), Line(JoinWith([i \in DOMAIN stats |-> stats[i][1] \o ": " \o ToString(stats[i][2])], Nl, 1))>>)
==============================================================================
