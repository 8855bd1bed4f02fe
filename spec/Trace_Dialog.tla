----------------------------- MODULE Trace_Dialog -----------------------------
(* Validates recorded dialogues (C24) and their logs (C25). A case is one      *)
(* dialogue, run once or, under different logger settings, several times.      *)
EXTENDS TraceBase, Dialog

VARIABLES l,
          sys,   \* what does not change: pipe, grammars, write rules, ...
          st,    \* the model
          m,     \* the pipeline
          now,   \* the sentence: [text, re, k: number of calls, prods: product name -> contents, raised]
          cfg,   \* the logger's settings
          want,  \* log entries that should have appeared since the last event that showed some
          test,  \* the dialogue tester
          base,  \* the observations of the first run of this case
          nth    \* number of observations in this run
vars == <<l, sys, st, m, now, cfg, want, test, base, nth>>

NoTest == [on |-> FALSE, fails |-> FALSE, i |-> 0, tests |-> <<>>]
Init == /\ l = 1 /\ sys = [pipe |-> <<>>] /\ st = <<>> /\ m = Fresh0(<<>>) /\ now = [raised |-> FALSE]
        /\ cfg = [which |-> "none"] /\ want = <<>> /\ test = NoTest /\ base = <<>> /\ nth = 0
Undefined == <<[kind |-> "undefined"]>>

SeqFn(r) == [d \in DOMAIN r |-> r[d]]
\* after a reported or an unspecified divergence, the rest of the run is not followed
Lost == st' = Undefined /\ UNCHANGED <<m, now, want>>

\* the log entries since the last event with entries
LogAs(ev, entries) == Check(ev, ev.log = entries, "the log", entries)

-----------------------------------------------------------------------------
RECURSIVE AsParse(_)
AsParse(t) == [r |-> t.r, t |-> t.t, p |-> t.p, f |-> t.f, c |-> [i \in DOMAIN t.c |-> AsParse(t.c[i])]]

\* the contents of the product that the block with this role works on
Input(role) == LET d == MaxOf({d \in 1..(m.due - 1) : sys.pipe[d].role = role}) IN now.prods[m.cur[d]]
Name(i) == ToString(now.k + 1) \o "." \o ToString(i)

\* checks of each kind of call; each yields the new state of the model by Then
ParseCall(ev, block) ==
    \E tx \in {Collapse(now.text)} :
    \E g \in {sys.g[Due(m)].rules} :
    \E V \in {KnownVariants(g, Learned(st, Due(m)))} :
    \E trees \in {TLCEval([i \in DOMAIN ev.out.trees |-> AsParse(ev.out.trees[i])])} :
        /\ IF "trees" \in Range(sys.judge)
           THEN \E all \in {TreesFor(V, tx, now.re, Root)} :
                /\ Check(ev, Range(trees) = all /\ Len(trees) = Cardinality(all), "the readings", Cardinality(all))
                /\ Check(ev, Ordered(g, trees), "readings in order of preference", "")
           ELSE TRUE
        /\ IF trees # <<>> THEN Check(ev, ev.out.err = "", "a sentence is understood", "")
           ELSE \E f \in {Failure(tx, now.re, Chart(V, tx, now.re))} :
                Check(ev, ev.out.err = f.type /\ ev.out.argcodes = f.args, "correct failure report", f)
        /\ st' = st

Want(g, tree) == MeaningOf(g, tree, [i \in DOMAIN g[tree.r].ar |-> "root#" \o ToString(i)], "s")
Compared(ev, x, g, tree) ==
    JoinAll(<<Match(x.sem, ev.out.its[1][2]), MatchSeq(x.exe, ev.out.exe), MatchSeq(x.dlg, ev.out.dlg),
              MatchSeq([i \in DOMAIN g[tree.r].ar |-> VarT("root#" \o ToString(i))], [i \in DOMAIN ev.out.roots |-> VarT(ev.out.roots[i])])>>)
ComposeCall(ev) ==
    \E in \in {Input("parse")} :
    \E x \in {Want(sys.g[in.proc].c, in.tree)} :
    \E c \in {Compared(ev, x, sys.g[in.proc].c, in.tree)} :
        /\ Check(ev, c.ok /\ OneToOne(c.pairs), "the meaning is composed of its parts", x)
        /\ st' = st

Bindings(rs) == [i \in DOMAIN rs |-> [n \in {rs[i][j][1] : j \in DOMAIN rs[i]} |->
                    rs[i][CHOOSE j \in DOMAIN rs[i] : rs[i][j][1] = n][2]]]
ExecuteCall(ev) ==
    \E in \in {Input("compose")} :
    \E r \in {Execute([sem |-> in.sem, exe |-> in.exe, dlg |-> in.dlg], st)} :
        IF IsUnd(r) THEN st' = Undefined
        ELSE /\ Check(ev, ev.out.e = r.e, "error iff the specification says so", [e |-> r.e, r |-> r.r])
             /\ IF r.e \/ ev.out.e THEN TRUE
                ELSE /\ Check(ev, Bindings(ev.out.r) = r.r, "answers in order", r.r)
                     /\ IF StatsOn(cfg) THEN Check(ev, SameBag(ev.out.stats, Tallied(r.s)), "every goal solved is counted", Tallied(r.s))
                        ELSE Check(ev, ev.out.stats = <<>>, "nothing is counted", <<>>)
             /\ st' = WithoutCounter(r.s)

CheckCall(ev, block) ==
    \E in \in {Input("execute")} :
        /\ Check(ev, ev.out.err = Checker(block.check, in.r), "the right result is judged", Checker(block.check, in.r))
        /\ st' = st

\* what is known about the products of this call
Contents(ev, block, i) ==
    CASE block.role = "parse" -> [tree |-> ev.out.trees[i], proc |-> Due(m), value |-> ev.out.vals[i], text |-> <<Line(TreeText(ev.out.trees[i]))>>]
      [] block.role = "compose" ->
            [sem |-> ev.out.its[Len(ev.out.its)][2].l, exe |-> ev.out.exe, dlg |-> ev.out.dlg, value |-> ev.out.vals[i],
             text |-> CompositionText([exe |-> ev.out.exe, dlg |-> ev.out.dlg, roots |-> ev.out.roots, its |-> ev.out.its], sys.texts)]
      [] block.role = "execute" -> [r |-> ev.out.r, value |-> ev.out.vals[i], text |-> AnswersText(ev.out.r, ev.out.stats, sys.texts)]
      [] block.role = "select" -> [value |-> ev.out.vals[i], text |-> <<Line(ev.out.prods[i])>>]
      [] OTHER -> [value |-> ev.out.vals[i], text |-> <<Line("checked")>>]

Entries(ev, block, contents) ==
    IF ~Logged(cfg, m.due) THEN <<>>
    ELSE <<Header(block.name)>> \o (IF ev.out.err = "" THEN <<>> ELSE <<ErrorLine(ev.out.err)>>)
         \o Flat([i \in DOMAIN contents |-> contents[i].text])

NameOf(ev, block, i) == IF block.role = "select" THEN ev.out.prods[i] ELSE Name(i)
Called(ev, block) ==
    IF ev.out.e
    THEN m' = Raised(m) /\ now' = [now EXCEPT !.k = @ + 1] /\ UNCHANGED want
    ELSE \E contents \in {TLCEval([i \in DOMAIN ev.out.prods |-> Contents(ev, block, i)])} :
         \E names \in {TLCEval([i \in DOMAIN ev.out.prods |-> NameOf(ev, block, i)])} :
            /\ Check(ev, ev.out.prods = names, "the products", names)
            /\ want' = want \o Entries(ev, block, contents)
            /\ m' = Outcome(m, [err |-> ev.out.err, args |-> ev.out.args, prods |-> names])
            /\ now' = [now EXCEPT !.k = @ + 1,
                                  !.prods = [n \in Range(names) |-> contents[CHOOSE i \in DOMAIN names : names[i] = n]] @@ @]

Fitting(ev) == ~m.done /\ Due(m) # "" /\ Due(m) = ev.proc /\ ev.d = m.due /\ Seen(m) = SeqFn(ev.seen)
Call(ev) ==
    IF ~Fitting(ev)
    THEN Report(ev, "the next call", IF m.done THEN <<"done">> ELSE <<Due(m), m.due, Seen(m)>>) /\ Lost
    ELSE LET block == sys.pipe[m.due] IN
         CASE ev.out.e /\ block.role = "compose" /\ sys.optimizer -> Lost   \* optimizers are specified in Optimize
           [] ev.out.e /\ block.role # "execute" -> Report(ev, "this processor raises nothing", "") /\ Lost
           [] OTHER ->
              /\ CASE block.role = "parse" -> ParseCall(ev, block)
                   [] block.role = "compose" -> ComposeCall(ev)
                   [] block.role = "execute" -> ExecuteCall(ev)
                   [] block.role = "check" -> CheckCall(ev, block)
                   [] OTHER -> Check(ev, ev.out.prods = block.locales, "the locales", block.locales) /\ st' = st
              /\ Called(ev, block)

-----------------------------------------------------------------------------
LogThis(t, c) == c.which = "all" \/ (c.which = "last" /\ t.i + 1 = Len(t.tests))

Enter(ev) ==
    \E logthis \in {test.on /\ LogThis(test, cfg)} :
    /\ IF test.on
       THEN /\ Check(ev, ~test.fails /\ test.i < Len(test.tests) /\ ev.text = test.tests[test.i + 1][1], "the tests in sequence", test.i + 1)
            /\ cfg' = [cfg EXCEPT !.last = logthis]
            /\ test' = [test EXCEPT !.i = @ + 1]
            /\ LogAs(ev, want \o (IF logthis THEN <<Separator(test.i + 1), KeyValue("Human", ev.string)>> ELSE <<>>))
       ELSE LogAs(ev, want) /\ UNCHANGED <<cfg, test>>
    /\ want' = <<>>
    /\ m' = Fresh0(sys.pipe)
    /\ now' = [text |-> ev.text, re |-> ev.re, k |-> 0, prods |-> NoB, raised |-> FALSE]
    /\ st' = st

Facts(ev, s) == \A i \in DOMAIN ev.facts : SameBag(ev.facts[i][3], s[ev.facts[i][1]].rows[ev.facts[i][2]])
Wanted(ev, s) == [i \in DOMAIN ev.facts |-> s[ev.facts[i][1]].rows[ev.facts[i][2]]]

Finish(ev) ==
    \E m2 \in {IF ~m.done /\ Due(m) = "" THEN Raised(m) ELSE m} :
    IF ~m2.done THEN Report(ev, "every interpretation that should be tried is tried", [due |-> m2.due]) /\ Lost
    ELSE \E r \in {IF m2.raised THEN Err(st) ELSE Stored(m2.err, m2.args, st)} :
         /\ Check(ev, ev.raised = r.e, "error iff the specification says so", r.e)
         /\ IF ev.raised \/ r.e \/ m2.err # "" THEN TRUE
            ELSE /\ Check(ev, ev.answer = m2.cur[Len(m2.pipe)], "the interpretation that succeeded", m2.cur)
                 /\ Check(ev, ev.value = now.prods[m2.cur[Len(m2.pipe)]].value, "the answer", "")
         /\ Check(ev, m2.raised \/ \A d \in DOMAIN m2.alts : SeqFn(ev.alts)[d] = m2.alts[d], "the alternatives kept", m2.alts)
         /\ Check(ev, Facts(ev, r.s), "stored facts", Wanted(ev, r.s))
         /\ LogAs(ev, want)
         /\ want' = <<>>
         /\ m' = m2 /\ st' = r.s
         /\ now' = [now EXCEPT !.raised = ev.raised]

Read_(ev) ==
    \E r \in {Read(sys.rules, sys.strs, sys.ob, st)} :
        IF r.u THEN Lost
        ELSE /\ Check(ev, ev.out.e = r.e, "error iff the specification says so", [e |-> r.e, v |-> r.v])
             /\ Check(ev, r.e \/ ev.out.e \/ ev.out.v = r.v, "the output", r.v)
             /\ Check(ev, Facts(ev, r.s), "stored facts", Wanted(ev, r.s))
             /\ LogAs(ev, want)
             /\ st' = r.s /\ UNCHANGED <<m, now>>
             /\ want' = IF ~test.on \/ r.e THEN <<>>
                        ELSE IF cfg.last \/ r.v # test.tests[test.i][2]
                             THEN <<KeyValue("Computer", StrOf(r.v, sys.texts)), Comment("# msecs")>> ELSE <<>>

\* the tester
Failed(v) == v # test.tests[test.i][2]

Tested(ev) ==
    /\ Check(ev, ev.raised = test.fails, "a test fails iff the output differs or there is an error", test.fails)
    /\ Check(ev, test.fails \/ test.i = Len(test.tests), "all tests are run", test.i)
    /\ LogAs(ev, want)
    /\ Check(ev, ev.printed = test.fails, "the log is printed if a test fails", test.fails)

-----------------------------------------------------------------------------
\* the observations that may not depend on logging
Same(ev) ==
    IF ev.op \notin {"call", "finish", "read"} THEN UNCHANGED <<base, nth>>
    ELSE IF ev.run = 1 THEN base' = Append(base, ev.obs) /\ UNCHANGED nth
    ELSE /\ nth' = nth + 1 /\ UNCHANGED base
         /\ Check(ev, nth + 1 <= Len(base) /\ (ev.obs = base[nth + 1]), "the same without logging",
                  IF nth + 1 <= Len(base) THEN base[nth + 1] ELSE "nothing")

Judged(ev) ==
    CASE st = Undefined -> UNCHANGED <<st, m, now, cfg, want, test>>
      [] ev.op = "cfg" -> cfg' = ev.cfg /\ UNCHANGED <<st, m, now, want, test>>
      [] ev.op = "enter" -> Enter(ev)
      [] ev.op = "call" -> Call(ev) /\ UNCHANGED <<cfg, test>>
      [] ev.op = "finish" -> Finish(ev) /\ test' = (IF test.on /\ ev.raised THEN [test EXCEPT !.fails = TRUE] ELSE test) /\ UNCHANGED cfg
      [] ev.op = "read" ->
            /\ Read_(ev) /\ UNCHANGED cfg
            /\ test' = IF test.on /\ (ev.out.e \/ ev.out.v # test.tests[test.i][2]) THEN [test EXCEPT !.fails = TRUE] ELSE test
      [] ev.op = "tests" -> test' = [on |-> TRUE, fails |-> FALSE, i |-> 0, tests |-> ev.tests] /\ UNCHANGED <<st, m, now, cfg, want>>
      [] ev.op = "tested" -> Tested(ev) /\ test' = NoTest /\ want' = <<>> /\ UNCHANGED <<st, m, now, cfg>>
      [] ev.op = "end" ->
            /\ LogAs(ev, want)
            /\ Check(ev, ev.null, "the log of the default logger is empty", TRUE)
            /\ Check(ev, ev.whole, "the log as text has every entry", TRUE)
            /\ UNCHANGED <<st, m, now, cfg, want, test>>

Step(ev) ==
    CASE ev.op = "broken" -> Report(ev, "the code completes the case", "") /\ UNCHANGED <<sys, st, m, now, cfg, want, test, base, nth>>
      [] ev.op = "init" ->
            /\ sys' = ev.sys /\ st' = ev.mods /\ m' = Fresh0(ev.sys.pipe) /\ now' = [raised |-> FALSE]
            /\ cfg' = ev.cfg /\ want' = <<>> /\ test' = NoTest
            /\ base' = IF ev.run = 1 THEN <<>> ELSE base
            /\ nth' = 0
      [] OTHER -> Judged(ev) /\ Same(ev) /\ UNCHANGED sys

Next == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
==============================================================================
