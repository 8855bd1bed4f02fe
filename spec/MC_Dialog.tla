------------------------------ MODULE MC_Dialog ------------------------------
(* All short dialogues of a small system: statements, questions, a rule, a   *)
(* lesson in grammar, an ambiguous sentence, sentences joined by "and", and texts that are not     *)
(* understood, under each kind of block for the parser. The system goes step *)
(* by step, a processor at a time. What it knows and says is compared with   *)
(* what a speaker would expect, who only keeps a list of what was stated and *)
(* a list of what was not read yet. Every dialogue is printed, to be         *)
(* replayed.                                                                 *)
EXTENDS Dialog, Json
CONSTANTS MaxLen, Texts

VARIABLES st, m, now,      \* the model, the pipeline, the sentence being processed
          kind,            \* the kind of the parser's block
          hist,            \* what was done
          said,            \* the output that was read, <<>> if none was read yet
          ghost            \* the speaker's view: [know, rule, lesson, pend, said]
vars == <<st, m, now, kind, hist, said, ghost>>

-----------------------------------------------------------------------------
(* the system *)
Codes == [a |-> <<97>>, b |-> <<98>>, x |-> <<120>>, y |-> <<121>>, is |-> <<105, 115>>, who |-> <<119, 104, 111>>, it |-> <<105, 116>>,
          and |-> <<97, 110, 100>>, c |-> <<99>>, new |-> <<110, 101, 119>>, all |-> <<97, 108, 108>>, huh |-> <<104, 117, 104>>]
Letters == <<"a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q", "r", "s", "t", "u", "v", "w", "x", "y", "z">>
Char(c) == IF c = 32 THEN " " ELSE IF c = 46 THEN "." ELSE Letters[c - 96]
StringOf(cs) == Concat([i \in DOMAIN cs |-> Char(cs[i])], 1)
RECURSIVE Text(_)
Text(ws) == IF ws = <<>> THEN <<>> ELSE Codes[ws[1]] \o (IF Len(ws) > 1 THEN <<32>> ELSE <<>>) \o Text(Tail(ws))

Wd(w) == [t |-> "w", p |-> "", ar |-> <<>>, f |-> Codes[w], o |-> FALSE, j |-> " "]
Rel(p, ar) == [t |-> "r", p |-> p, ar |-> ar, f |-> <<>>, o |-> FALSE, j |-> " "]
Lit(v) == [e |-> "lit", v |-> ListT(v)]
Kid(i) == [e |-> "child", i |-> i]
In(x) == [k |-> "x", x |-> x]
At(p, args) == TupT(<<Str(p)>> \o args)
RVar(n) == [k |-> "rv", n |-> n]
E1 == VarT("E1")  E2 == VarT("E2")
Rule(lhs, ar, rhs, sem, exe, dlg, boost) ==
    [lhs |-> lhs, ar |-> ar, rhs |-> rhs, sem |-> sem, exe |-> exe, dlg |-> dlg, boost |-> boost, dlgconst |-> FALSE, late |-> FALSE]
Type(t) == At("output_type", <<Str(t)>>)
Store(as) == At("store", <<ListT(as)>>)
Isa(t, k) == At("isa", <<t, k>>)
Name_(cat, w) == Rule(cat, <<>>, <<Wd(w)>>, [e |-> "str", s |-> w], NoExpr, NoExpr, 0)
Grammar == <<
    Name_("n", "a"), Name_("n", "b"), Name_("k", "x"), Name_("k", "y"),
    \* a is x
    Rule("s", <<>>, <<Rel("n", <<>>), Wd("is"), Rel("k", <<>>)>>, Lit(<<>>), NoExpr, Lit(<<Isa(In(Kid(1)), In(Kid(2)))>>), 0),
    \* is a x
    Rule("s", <<>>, <<Wd("is"), Rel("n", <<>>), Rel("k", <<>>)>>, Lit(<<>>),
         Lit(<<At("$disjunction", <<ListT(<<ListT(<<Isa(In(Kid(1)), In(Kid(2))), Store(<<Type("yes")>>)>>), ListT(<<Store(<<Type("no")>>)>>)>>)>>)>>), NoExpr, 0),
    \* who x
    Rule("s", <<"E1">>, <<Wd("who"), Rel("k", <<>>)>>, Lit(<<Isa(E1, In(Kid(1)))>>),
         Lit(<<At("find_all", <<RVar("E1"), ListT(<<Isa(E1, In(Kid(1)))>>), E2>>), Store(<<Type("value"), At("output_value", <<E2>>)>>)>>), NoExpr, 0),
    \* it x: b is x, if it is, or else something called it is x from now on
    Rule("s", <<>>, <<Wd("it"), Rel("k", <<>>)>>, Lit(<<Isa(Str("b"), In(Kid(1))), Store(<<Type("yes")>>)>>), NoExpr, NoExpr, 1),
    Rule("s", <<"E1">>, <<Wd("it"), Rel("k", <<>>)>>, Lit(<<Store(<<Isa(Str("it"), In(Kid(1)))>>)>>), NoExpr, NoExpr, 0),
    \* all x y
    Rule("s", <<>>, <<Wd("all"), Wd("x"), Wd("y")>>, Lit(<<At("learn_rule", <<Isa(E1, Str("y")), ListT(<<Isa(E1, Str("x"))>>)>>)>>), NoExpr, NoExpr, 0),
    Rule("s", <<>>, <<Rel("s", <<>>), Wd("and"), Rel("s", <<>>)>>, [e |-> "cat", xs |-> <<Kid(1), Kid(2)>>], NoExpr, NoExpr, 0),
    \* new: from now on, c is a name
    Rule("s", <<>>, <<Wd("new")>>, Lit(<<At("learn_grammar_rule", <<[k |-> "g", i |-> 13]>>), Store(<<Type("yes")>>)>>), NoExpr, NoExpr, 0),
    [Name_("n", "c") EXCEPT !.late = TRUE]>>
Wide(rs) == [i \in DOMAIN rs |-> [ar |-> rs[i].ar, sem |-> rs[i].sem, exe |-> rs[i].exe, dlg |-> rs[i].dlg,
                 rhs |-> Flat([k \in DOMAIN rs[i].rhs |-> IF k = 1 THEN <<rs[i].rhs[k]>> ELSE <<SpaceWord, rs[i].rhs[k]>>])]]
G == Wide(Grammar)

WW(f) == [t |-> "w", p |-> "", ar |-> <<>>, f |-> f, o |-> FALSE, j |-> " "]
WR(p, ar) == [t |-> "r", p |-> p, ar |-> ar, f |-> "", o |-> FALSE, j |-> " "]
Out(rhs, cond) == [lhs |-> "s", ar |-> <<>>, rhs |-> rhs, cond |-> cond, has |-> cond # <<>>, exec |-> "", post |-> ""]
Write == << Out(<<WW("yes")>>, <<Type("yes")>>), Out(<<WR("value", <<"E1">>)>>, <<Type("value"), At("output_value", <<E1>>)>>),
            Out(<<WW("no")>>, <<Type("no")>>), Out(<<WW("sorry")>>, <<Type("not_understood")>>), Out(<<WW("nothing")>>, <<Type("no_sentence")>>),
            Out(<<WW("what"), WR("text", <<"E1">>)>>, <<Type("unknown_word"), At("output_unknown_word", <<E1>>)>>),
            Out(<<WW("nobody")>>, <<Type("e1")>>), Out(<<WW("ok")>>, <<>>) >>
Rels(s) == [p \in DOMAIN s |-> [ar |-> s[p], w |-> TRUE]]
Empty(rels) == [p \in DOMAIN rels |-> <<>>]
Buffer == Rels([output_type |-> 1, output_value |-> 1, output_unknown_word |-> 1, output_no_sentence |-> 0, output_not_understood |-> 0, output_e1 |-> 0])
Isas == Rels([isa |-> 2])
World == << [kind |-> "table", rels |-> Buffer, rows |-> Empty(Buffer)], [kind |-> "table", rels |-> Isas, rows |-> Empty(Isas)],
            [kind |-> "infer", rules |-> <<>>], [kind |-> "grammar", g |-> "parser", learned |-> <<>>] >>
Block(kd, role, name, check) == [kind |-> kd, sel |-> FALSE, role |-> role, name |-> name, procs |-> [any |-> name], locales |-> <<>>, check |-> check]
Pipe(kd) == << Block(kd, "parse", "parser", ""), Block("one", "compose", "composer", ""), Block("one", "execute", "executor", ""),
               Block("one", "check", "checker", "some") >>

-----------------------------------------------------------------------------
(* sentences, as words *)
Ns == {"a", "b"}  Ks == {"x", "y"}
Clauses == {<<n, "is", k>> : n \in Ns, k \in Ks} \cup {<<"is", n, k>> : n \in Ns, k \in Ks} \cup {<<"it", k>> : k \in Ks} \cup {<<"all", "x", "y">>}
Some == {<<"a", "is", "x">>, <<"b", "is", "x">>, <<"is", "a", "x">>, <<"is", "b", "y">>, <<"it", "y">>, <<"it", "x">>, <<"all", "x", "y">>}
Joined(cs) == {c \o <<"and">> \o d : c \in cs, d \in cs}
Lessons == {<<"new">>, <<"c", "is", "x">>, <<"is", "c", "x">>}
Others == {<<"new", "and", "a", "is", "x">>, <<"c", "is", "x", "and", "new">>, <<"who", "x">>, <<"who", "y">>, <<"huh">>, <<>>, <<"is", "a">>, <<"a", "is", "huh">>, <<"who", "x", "and", "it", "x">>}
Sentences == CASE Texts = "small" -> Some \cup Lessons \cup {<<"who", "y">>, <<"huh">>, <<"is", "a">>}
               [] Texts = "joined" -> Clauses \cup Lessons \cup Others \cup Joined(Some)

\* in order of preference
RECURSIVE Sorted(_)
Sorted(ts) == IF ts = {} THEN <<>>
              ELSE LET t == CHOOSE t \in ts : \A u \in ts : Before(Grammar, t, u) IN <<t>> \o Sorted(ts \ {t})
RECURSIVE Spoken(_)
\* names of variables as values; what a leaf says
Spoken(t) == CASE t.k = "rn" -> Str(t.n)
               [] t.k = "l" -> ListT([i \in DOMAIN t.l |-> Spoken(t.l[i])])
               [] t.k = "t" -> TupT([i \in DOMAIN t.t |-> Spoken(t.t[i])])
               [] OTHER -> t
RECURSIVE WithStrings(_)
WithStrings(t) == [r |-> t.r, t |-> t.t, s |-> IF t.r = 0 THEN StringOf(t.f) ELSE "", c |-> [i \in DOMAIN t.c |-> WithStrings(t.c[i])]]
Composed(t, s) == LET c == MeaningOf(G, WithStrings(t), [i \in DOMAIN G[t.r].ar |-> s \o "#" \o ToString(i)], s) IN
                  [sem |-> Spoken(c.sem).l, exe |-> Spoken(ListT(c.exe)).l, dlg |-> Spoken(ListT(c.dlg)).l]
NoRe == [p \in {} |-> <<>>]
ASSUME TLCSet(10, KnownVariants(Grammar, {})) /\ TLCSet(13, KnownVariants(Grammar, {13}))
V0 == TLCGet(10)
V1 == TLCGet(13)
Taught == 13 \in Learned(st, "parser")
ReadingsOf(ts) == Now(Sorted(ts), LAMBDA o : TLCEval([i \in DOMAIN o |-> TLCEval(Composed(o[i], "s"))]))
AllReadings0(ss) == TLCEval([ws \in ss |-> Now(TreesFor(V0, Text(ws), NoRe, Root), LAMBDA ts : ReadingsOf(ts))])
\* the lesson makes a difference to sentences with c only
AllReadings1(ss, old) == TLCEval([ws \in ss |-> IF ~InSeq("c", ws) THEN old[ws] ELSE Now(TreesFor(V1, Text(ws), NoRe, Root), LAMBDA ts : ReadingsOf(ts))])
Failed_(ws, taught) == LET f == Now(IF taught THEN V1 ELSE V0, LAMBDA W : Now(Text(ws), LAMBDA tx : Now(Chart(W, tx, NoRe), LAMBDA c : Failure(tx, NoRe, c)))) IN
               [err |-> f.type, args |-> [i \in DOMAIN f.args |-> Str(StringOf(f.args[i]))], prods |-> <<>>]
\* evaluated once
ASSUME TLCSet(11, Now(AllReadings0(Sentences), LAMBDA old : (TRUE :> AllReadings1(Sentences, old)) @@ (FALSE :> old)))
Readings == TLCGet(11)[Taught]
ASSUME TLCSet(12, TLCEval([taught \in BOOLEAN |-> TLCEval([ws \in {ws \in Sentences : TLCGet(11)[taught][ws] = <<>>} |-> TLCEval(Failed_(ws, taught))])]))
Failures == TLCGet(12)[Taught]

-----------------------------------------------------------------------------
(* steps *)
Idle == now.ws = <<"none">>
Nobody == [ws |-> <<"none">>]
Init == /\ st = World /\ kind \in {"one", "all", "first"} /\ m = Fresh0(<<>>) /\ now = Nobody /\ hist = <<>> /\ said = <<>>
        /\ ghost = [know |-> <<>>, rule |-> FALSE, lesson |-> FALSE, pend |-> <<>>, said |-> <<>>]
Enters == Len(SelectSeq(hist, LAMBDA h : h.op = "enter"))
Reads == Len(hist) - Enters
Enter == /\ Idle /\ Enters < MaxLen
         /\ \E ws \in Sentences : now' = [ws |-> ws, k |-> 0, prods |-> NoB] /\ hist' = Append(hist, [op |-> "enter", text |-> Text(ws)])
         /\ m' = Fresh0(Pipe(kind))
         /\ UNCHANGED <<st, kind, said, ghost>>
Names(n) == [i \in 1..n |-> ToString(now.k + 1) \o "." \o ToString(i)]
\* p: [o: outcome, contents, st]
Called(p) == /\ m' = Outcome(m, p.o)
             /\ now' = [now EXCEPT !.k = @ + 1, !.prods = [n \in Range(p.o.prods) |-> p.contents[IndexOf(p.o.prods, n)]] @@ @]
             /\ st' = p.st
Fine_(contents, s) == [o |-> [err |-> "", args |-> <<>>, prods |-> Names(Len(contents))], contents |-> contents, st |-> s]
Result(role) ==
    CASE role = "parse" -> IF Readings[now.ws] = <<>> THEN [o |-> Failures[now.ws], contents |-> <<>>, st |-> st]
                           ELSE Fine_([i \in DOMAIN Readings[now.ws] |-> i], st)
      [] role = "compose" -> Fine_(<<Readings[now.ws][now.prods[m.cur[1]]]>>, st)
      [] role = "execute" -> LET c == now.prods[m.cur[2]] IN
                             Now(Execute([sem |-> c.sem, exe |-> c.exe, dlg |-> c.dlg], st), LAMBDA r : Fine_(<<r>>, WithoutCounter(r.s)))
      [] OTHER -> LET r == now.prods[m.cur[3]] IN
                  IF Checker("some", r.r) = "" THEN Fine_(<<"checked">>, st)
                  ELSE [o |-> [err |-> Checker("some", r.r), args |-> <<>>, prods |-> <<>>], contents |-> <<>>, st |-> st]
Call == /\ ~Idle /\ ~m.done
        /\ \E p \in {TLCEval(Result(m.pipe[m.due].role))} : Called(p)
        /\ UNCHANGED <<kind, hist, said, ghost>>

-----------------------------------------------------------------------------
(* the speaker *)
KnownAs(g, k) == Dedup([i \in DOMAIN SelectSeq(g.know, LAMBDA f : f[2] = k) |-> SelectSeq(g.know, LAMBDA f : f[2] = k)[i][1]]
                       \o (IF g.rule /\ k = "y" THEN [i \in DOMAIN SelectSeq(g.know, LAMBDA f : f[2] = "x") |-> SelectSeq(g.know, LAMBDA f : f[2] = "x")[i][1]] ELSE <<>>))
Is(g, n, k) == InSeq(n, KnownAs(g, k))
Pending(g, x) == [g EXCEPT !.pend = Append(@, x)]
\* the clauses of a sentence
RECURSIVE Split(_)
Split(ws) == IF ~InSeq("and", ws) THEN <<ws>>
             ELSE LET i == IndexOf(ws, "and") IN <<SubSeq(ws, 1, i - 1)>> \o Split(SubSeq(ws, i + 1, Len(ws)))
\* first the statements, then the questions, then the rest
RECURSIVE Told(_, _), Asked(_, _), Done(_, _, _)
Told(g, cs) == IF cs = <<>> THEN g ELSE Told(IF Len(cs[1]) = 3 /\ cs[1][2] = "is" THEN [g EXCEPT !.know = Append(@, <<cs[1][1], cs[1][3]>>)] ELSE g, Tail(cs))
Asked(g, cs) == IF cs = <<>> THEN g
                ELSE Asked(CASE cs[1][1] = "is" -> Pending(g, IF Is(g, cs[1][2], cs[1][3]) THEN <<"yes">> ELSE <<"no">>)
                             [] cs[1][1] = "who" -> Pending(g, <<"value", KnownAs(g, cs[1][2])>>)
                             [] OTHER -> g, Tail(cs))
\* [g, ok]; second: is it the second reading of it?
Done(g, cs, second) ==
    IF cs = <<>> THEN [g |-> g, ok |-> TRUE]
    ELSE CASE cs[1][1] = "it" /\ second -> Done([g EXCEPT !.know = Append(@, <<"it", cs[1][2]>>)], Tail(cs), second)
           [] cs[1][1] = "it" -> IF Is(g, "b", cs[1][2]) THEN Done(Pending(g, <<"yes">>), Tail(cs), second) ELSE [g |-> g, ok |-> FALSE]
           [] cs[1][1] = "all" -> Done([g EXCEPT !.rule = TRUE], Tail(cs), second)
           [] cs[1][1] = "new" -> Done(Pending([g EXCEPT !.lesson = TRUE], <<"yes">>), Tail(cs), second)
           [] cs[1][1] = "who" -> [g |-> g, ok |-> KnownAs(g, cs[1][2]) # <<>>]
           [] OTHER -> Done(g, Tail(cs), second)
Try(g, cs, second) == Done(Asked(Told(g, cs), cs), cs, second)
Nonsense == [n \in {<<"huh">>, <<>>, <<"is", "a">>, <<"a", "is", "huh">>, <<"who", "x", "and", "it", "x">>} |->
                CASE n = <<"huh">> -> <<"unknown_word", "huh ...">>
                  [] n = <<>> -> <<"no_sentence">>
                  [] n = <<"is", "a">> -> <<"not_understood">>
                  [] n = <<"a", "is", "huh">> -> <<"unknown_word", "huh ...">>
                  [] OTHER -> <<"unknown_word", " and it x ...">>]
Expected(g, ws) ==
    IF ws \in DOMAIN Nonsense THEN Pending(g, Nonsense[ws])
    ELSE IF InSeq("c", ws) /\ ~g.lesson THEN Pending(g, <<"unknown_word", CASE Len(ws) > 3 -> "c is x an ..." [] ws[1] = "c" -> "c is x ..." [] OTHER -> "c x ...">>)
    ELSE LET cs == Split(ws)
             two == cs[1][1] = "it" /\ Len(cs) = 1
             r1 == Try(g, cs, FALSE)
             r2 == Try(r1.g, cs, TRUE)
         IN CASE two /\ kind = "one" /\ ~r1.ok -> r2.g
              [] two /\ kind = "all" -> r2.g
              [] r1.ok -> r1.g
              [] OTHER -> Pending(r1.g, <<"e1">>)
Has(g, t) == \E i \in DOMAIN g.pend : g.pend[i][1] = t
First(g, t) == g.pend[CHOOSE i \in DOMAIN g.pend : g.pend[i][1] = t /\ \A j \in 1..(i - 1) : g.pend[j][1] # t]
Says(g) == CASE Has(g, "yes") -> Str("yes")
             [] Has(g, "value") -> ListT([i \in DOMAIN First(g, "value")[2] |-> Str(First(g, "value")[2][i])])
             [] Has(g, "no") -> Str("no")
             [] Has(g, "not_understood") -> Str("sorry")
             [] Has(g, "no_sentence") -> Str("nothing")
             [] Has(g, "unknown_word") -> Str("what " \o First(g, "unknown_word")[2])
             [] Has(g, "e1") -> Str("nobody")
             [] OTHER -> Str("ok")

Finish == /\ ~Idle /\ m.done
          /\ \E r \in {Stored(m.err, m.args, st)} : ~r.e /\ st' = r.s
          /\ ghost' = Expected(ghost, now.ws)
          /\ now' = Nobody /\ m' = Fresh0(<<>>)
          /\ UNCHANGED <<kind, hist, said>>
Read1 == /\ Idle /\ hist # <<>> /\ hist[Len(hist)].op = "enter"
         /\ \E r \in {Read(Write, <<>>, 1, st)} : ~r.e /\ st' = r.s /\ said' = <<r.v>>
         /\ ghost' = [ghost EXCEPT !.said = <<Says(ghost)>>, !.pend = <<>>]
         /\ hist' = Append(hist, [op |-> "read"])
         /\ Enters < MaxLen \/ PrintT("@@B " \o ToJson([kind |-> kind, ops |-> hist']))
         /\ UNCHANGED <<m, now, kind>>
Next == Enter \/ Call \/ Finish \/ Read1
Spec == Init /\ [][Next]_vars
ASSUME PrintT("@@B " \o ToJson([g |-> Grammar, rules |-> Write, mods |-> World, pipe |-> Pipe("one")]))

-----------------------------------------------------------------------------
\* what it says is what is expected; what it knows is what was stated
Answers == said = ghost.said
Knows == Idle => /\ st[2].rows["isa"] = [i \in DOMAIN ghost.know |-> <<Str(ghost.know[i][1]), Str(ghost.know[i][2])>>]
                 /\ (st[3].rules # <<>>) = ghost.rule
                 /\ Taught = ghost.lesson
\* while a sentence is processed, nothing known is lost
\* the steps of a sentence: every interpretation is composed, executed and checked at most once
Bounded == ~Idle => now.k <= 1 + 3 * 2
\* a text that is not understood changes nothing but the pending output
NotUnderstood_ == [][~Idle /\ Idle' /\ now.ws \in DOMAIN Failures => SubSeq(st', 2, 4) = SubSeq(st, 2, 4)]_vars
\* the system never gets stuck
Alive == Idle \/ m.done \/ ENABLED Call
Answerable == ~Idle /\ m.done => ENABLED Finish
Readable == Idle /\ hist # <<>> /\ hist[Len(hist)].op = "enter" => ENABLED Read1
==============================================================================
