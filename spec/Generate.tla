------------------------------ MODULE Generate -------------------------------
(* Generating output: the write grammar and the output buffer.               *)
(*                                                                           *)
(* A write rule is [lhs, ar |-> argument names, rhs |-> constituents,        *)
(*   cond |-> goals, has |-> has it a condition?, exec |-> function,         *)
(*   post |-> function]; a constituent is [t |-> "w" | "r", p |-> category,  *)
(*   ar |-> names, f |-> the text, o |-> optional?, j |-> join before it].   *)
(* texts: the text of values that are not strings or integers.               *)
EXTENDS Solve

Fine(v, used, st) == [e |-> FALSE, u |-> FALSE, v |-> v, used |-> used, s |-> st]
Fail(used, st, u) == [e |-> TRUE, u |-> u, v |-> None, used |-> used, s |-> st]

HasText(v, texts) == v.k \in {"s", "i"} \/ \E i \in DOMAIN texts : texts[i][1] = v
TextOf(v, texts) == IF v.k = "s" THEN v.s ELSE IF v.k = "i" THEN ToString(v.i)
                    ELSE texts[CHOOSE i \in DOMAIN texts : texts[i][1] = v][2]
RECURSIVE Concat(_, _)
Concat(ss, i) == IF i > Len(ss) THEN "" ELSE ss[i] \o Concat(ss, i + 1)

\* the functions that the rules of the generated grammars use
RECURSIVE Bars(_, _, _)
Bars(vs, i, texts) == IF i > Len(vs) THEN "" ELSE (IF i > 1 THEN "|" ELSE "") \o TextOf(vs[i], texts) \o Bars(vs, i + 1, texts)
CanExec(f, vs) == f \in {"wrap", "list", "n"} \/ (f = "first" /\ vs # <<>>)
Exec(f, vs, texts) == CASE f = "wrap" -> Str("<" \o Bars(vs, 1, texts) \o ">")
                        [] f = "list" -> ListT(vs)
                        [] f = "n" -> Int_(Len(vs))
                        [] f = "first" -> vs[1]
Post(f, v) == IF f = "wrap" THEN IF v.k = "s" THEN Str("[" \o v.s \o "]") ELSE ListT(<<Str("post"), v>>)
              ELSE v

\* what the parts together say
Combined(vs) == IF \A i \in DOMAIN vs : vs[i].k = "s" THEN Str(Concat([i \in DOMAIN vs |-> vs[i].s], 1))
                ELSE IF Len(vs) = 1 THEN vs[1] ELSE ListT(vs)

RECURSIVE HeadB(_, _, _, _)
HeadB(names, vals, i, b) == IF i > Len(names) THEN b ELSE HeadB(names, vals, i + 1, Ext(b, names[i], vals[i]))

\* the constituents with the spaces between them written out
Spaced(rhs) == Flat([k \in DOMAIN rhs |->
    IF k > 1 /\ rhs[k].j = " " THEN <<[t |-> "w", p |-> "", ar |-> <<>>, f |-> " ", o |-> FALSE, j |-> "+"], rhs[k]>> ELSE <<rhs[k]>>])
Candidates(g, cat, n) == SelectSeq([i \in DOMAIN g |-> i], LAMBDA i : g[i].lhs = cat /\ Len(g[i].ar) = n)

RECURSIVE Choose_(_, _, _, _, _, _, _), Gen(_, _, _, _, _, _, _), Parts(_, _, _, _, _, _, _, _)
\* the first candidate from i on whose condition holds and that was not used; best: the last one that matched so far
Choose_(g, cs, i, vals, used, st, best) ==
    IF i > Len(cs) THEN [e |-> FALSE, u |-> FALSE, best |-> best, s |-> st]
    ELSE LET rule == g[cs[i]]
             b == HeadB(rule.ar, vals, 1, NoB)
             r == IF rule.has THEN SolveQ(rule.cond, b, st) ELSE Ok(<<b>>, st)
         IN  IF r.e THEN [e |-> TRUE, u |-> IsUnd(r), best |-> best, s |-> r.s]
             ELSE IF r.r = <<>> THEN Choose_(g, cs, i + 1, vals, used, r.s, best)
             ELSE LET now == [i |-> cs[i], b |-> r.r[1]] IN
                  IF InSeq(cs[i], used) THEN Choose_(g, cs, i + 1, vals, used, r.s, now)
                  ELSE [e |-> FALSE, u |-> FALSE, best |-> now, s |-> r.s]

Gen(g, texts, cat, vals, opt, used, st) ==
    LET c == Choose_(g, Candidates(g, cat, Len(vals)), 1, vals, used, st, [i |-> 0, b |-> NoB]) IN
    IF c.e THEN Fail(used, c.s, c.u)
    ELSE IF c.best.i = 0 THEN IF opt THEN Fine(Str(""), used, c.s) ELSE Fail(used, c.s, FALSE)
    ELSE LET rule == g[c.best.i]
             p == Parts(g, texts, rule, Spaced(rule.rhs), 1, c.best.b, <<>>, [used |-> Append(used, c.best.i), s |-> c.s])
         IN  IF p.e THEN p
             ELSE IF rule.post = "boom" THEN Fail(p.used, p.s, FALSE)
             ELSE Fine(Post(rule.post, Combined(p.v)), p.used, p.s)

\* the constituents from k on; an argument without a value is an empty text
Parts(g, texts, rule, rhs, k, b, acc, now) ==
    IF k > Len(rhs) THEN Fine(acc, now.used, now.s)
    ELSE LET c == rhs[k]
             vals == [a \in DOMAIN c.ar |-> IF c.ar[a] \in DOMAIN b THEN b[c.ar[a]] ELSE Str("")]
             r == CASE c.t = "w" -> Fine(Str(c.f), now.used, now.s)
                    [] c.p = "value" -> IF vals = <<>> THEN Fail(now.used, now.s, FALSE) ELSE Fine(vals[1], now.used, now.s)
                    [] c.p = "text" -> IF vals = <<>> THEN Fail(now.used, now.s, FALSE)
                                       ELSE IF ~HasText(vals[1], texts) THEN Fail(now.used, now.s, TRUE)
                                       ELSE Fine(Str(TextOf(vals[1], texts)), now.used, now.s)
                    [] c.p = "format" -> IF ~CanExec(rule.exec, vals) THEN Fail(now.used, now.s, FALSE)
                                         ELSE IF rule.exec = "wrap" /\ \E i \in DOMAIN vals : ~HasText(vals[i], texts) THEN Fail(now.used, now.s, TRUE)
                                         ELSE Fine(Exec(rule.exec, vals, texts), now.used, now.s)
                    [] OTHER -> Gen(g, texts, c.p, vals, c.o, now.used, now.s)
         IN  IF r.e THEN r
             ELSE Parts(g, texts, rule, rhs, k + 1, b, Append(acc, r.v), [used |-> r.used, s |-> r.s])

-----------------------------------------------------------------------------
\* reading the output consumes it; ob: the output buffer
Emptied(st, ob) == [st EXCEPT ![ob].rows = [p \in DOMAIN @ |-> <<>>]]
Read(g, texts, ob, st) ==
    LET r == Gen(g, texts, "s", <<>>, FALSE, <<>>, st) IN [r EXCEPT !.s = Emptied(r.s, ob)]
==============================================================================
