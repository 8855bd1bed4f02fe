-------------------------------- MODULE Parse --------------------------------
(* What a grammar says about a text.                                         *)
(*                                                                           *)
(* A grammar is a sequence of rules                                          *)
(*   [lhs |-> category, ar |-> argument names, rhs |-> constituents,         *)
(*    boost |-> int]                                                         *)
(* A constituent is                                                          *)
(*   [t |-> "r" (relation) | "w" (word form) | "x" (regular expression),     *)
(*    p |-> category or regular expression, ar |-> argument names,           *)
(*    f |-> the characters of the word form, o |-> optional?,                *)
(*    j |-> the join written before it: " " (space), "+" (none), "~" (either)] *)
(* A text is a sequence of character codes. What a regular expression        *)
(* matches is given by a table: re[x][i + 1] is the length of its match at   *)
(* position i (0: none).                                                     *)
(*                                                                           *)
(* Parse trees are defined declaratively (all ways to divide a span), and    *)
(* recognition by Earley item sets, independently of each other.             *)
EXTENDS Util

-----------------------------------------------------------------------------
(* text *)
IsSpace(c) == c \in 9..13 \/ c \in 28..32 \/ c = 133 \/ c = 160
Space == 32

RECURSIVE CollapseFrom(_, _, _)
CollapseFrom(t, i, acc) ==
    IF i > Len(t) THEN acc
    ELSE IF ~IsSpace(t[i]) THEN CollapseFrom(t, i + 1, Append(acc, t[i]))
    ELSE IF i > 1 /\ IsSpace(t[i - 1]) THEN CollapseFrom(t, i + 1, acc)
    ELSE CollapseFrom(t, i + 1, Append(acc, Space))
\* every run of white space is one space
Collapse(t) == CollapseFrom(t, 1, <<>>)

Lower(c) == IF c \in 65..90 \/ (c \in 192..222 /\ c # 215) THEN c + 32 ELSE c
LowerSeq(s) == [i \in DOMAIN s |-> Lower(s[i])]
\* positions are counted from 0
Slice(text, i, j) == SubSeq(text, i + 1, j)
WordAt(text, i, w) == i + Len(w) <= Len(text) /\ LowerSeq(Slice(text, i, i + Len(w))) = LowerSeq(w)

-----------------------------------------------------------------------------
(* rules: the optional constituents and joins written out *)
SpaceWord == [t |-> "w", p |-> "", ar |-> <<>>, f |-> <<Space>>]
Plain(c) == [t |-> c.t, p |-> c.p, ar |-> c.ar, f |-> c.f]

\* the ways to write constituent c after kept (a non-empty sequence of kept constituents, or nothing)
AfterKept(kept, c) ==
    IF kept = <<>> THEN {<<Plain(c)>>}
    ELSE (IF c.j \in {" ", "~"} THEN {kept \o <<SpaceWord, Plain(c)>>} ELSE {}) \cup
         (IF c.j \in {"+", "~"} THEN {Append(kept, Plain(c))} ELSE {})

RECURSIVE ExpandFrom(_, _, _)
ExpandFrom(rhs, k, kept) ==
    IF k > Len(rhs) THEN {kept}
    ELSE UNION {ExpandFrom(rhs, k + 1, x) : x \in AfterKept(kept, rhs[k])}
         \cup (IF rhs[k].o THEN ExpandFrom(rhs, k + 1, kept) ELSE {})
Expand(rhs) == ExpandFrom(rhs, 1, <<>>)

SameSyntax(r, q) == r.lhs = q.lhs /\ r.ar = q.ar /\ r.rhs = q.rhs
\* all variants: rules with identical syntax count as one, the first
Variants(g) ==
    UNION {{[r |-> k, lhs |-> g[k].lhs, n |-> Len(g[k].ar), rhs |-> x] : x \in Expand(g[k].rhs)}
           : k \in {k \in DOMAIN g : \A q \in 1..(k - 1) : ~SameSyntax(g[q], g[k])}}

-----------------------------------------------------------------------------
(* derivation trees *)
\* an inner node: rule number, category, children; a leaf: r = 0, form and type
Node(v, ch) == [r |-> v.r, t |-> "r", p |-> v.lhs, f |-> <<>>, c |-> ch]
Leaf(c, f) == [r |-> 0, t |-> c.t, p |-> IF c.t = "x" THEN c.p ELSE "", f |-> f, c |-> <<>>]

\* the leaves that constituent c can have on the span i..j
Tokens(c, text, re, i, j) ==
    CASE c.t = "w" -> IF Len(c.f) = j - i /\ WordAt(text, i, c.f) THEN {Leaf(c, c.f)} ELSE {}
      [] c.t = "x" -> IF j > i /\ re[c.p][i + 1] >= j - i THEN {Leaf(c, Slice(text, i, j))} ELSE {}
      [] OTHER -> {}

\* all trees for constituent c on the span i..j; cells[j - i][i + 1]: for each shorter span, a set of [n, tree]
ChildTrees(c, text, re, i, j, cells) ==
    IF c.t = "r" THEN {x.tree : x \in {x \in cells[j - i][i + 1] : x.tree.p = c.p /\ x.n = Len(c.ar)}}
    ELSE Tokens(c, text, re, i, j)

RECURSIVE Seqs(_, _, _, _, _, _, _)
\* all ways to divide i..j over the constituents from k on
Seqs(rhs, k, text, re, i, j, cells) ==
    IF k = Len(rhs) THEN {<<x>> : x \in ChildTrees(rhs[k], text, re, i, j, cells)}
    ELSE UNION {LET heads == ChildTrees(rhs[k], text, re, i, m, cells) IN
                IF heads = {} THEN {}
                ELSE LET tails == Seqs(rhs, k + 1, text, re, m, j, cells) IN
                     {<<h>> \o t : h \in heads, t \in tails}
                : m \in (i + 1)..(j - (Len(rhs) - k))}

\* trees that need no other tree on the same span
Base(V, text, re, i, j, cells) ==
    UNION {{[n |-> v.n, tree |-> Node(v, s)] : s \in Seqs(v.rhs, 1, text, re, i, j, cells)}
           : v \in {v \in V : Len(v.rhs) > 1 \/ v.rhs[1].t # "r"}}

RECURSIVE Chains(_, _)
\* close a cell under rules with a single relation
Chains(V, S) ==
    LET new == UNION {{[n |-> v.n, tree |-> Node(v, <<x.tree>>)]
                        : x \in {x \in S : x.tree.p = v.rhs[1].p /\ x.n = Len(v.rhs[1].ar)}}
                      : v \in {v \in V : Len(v.rhs) = 1 /\ v.rhs[1].t = "r"}}
    IN IF new \subseteq S THEN S ELSE Chains(V, S \cup new)

\* the short spans first
RECURSIVE FillCells(_, _, _, _, _)
FillCells(V, text, re, len, cells) ==
    IF len > Len(text) THEN cells
    ELSE LET row == TLCEval([k \in 1..(Len(text) - len + 1) |-> TLCEval(Chains(V, Base(V, text, re, k - 1, k - 1 + len, cells)))]) IN
         FillCells(V, text, re, len + 1, Append(cells, row))

\* all derivation trees of the whole text for a category
TreesFor(V, text, re, cat) ==
    IF text = <<>> THEN {}
    ELSE {x.tree : x \in {x \in FillCells(V, text, re, 1, <<>>)[Len(text)][1] : x.tree.p = cat}}

Root == "s"
Trees(g, text, re) == TreesFor(Variants(g), Collapse(text), re, Root)

-----------------------------------------------------------------------------
(* recognition: Earley item sets. An item is [v, dot, from]; the start item   *)
(* waits for the root category, with any number of arguments.                 *)
StartItems(V) == {[v |-> v, dot |-> 0, from |-> 0] : v \in {v \in V : v.lhs = Root}}
Complete(it) == it.dot = Len(it.v.rhs)
NextC(it) == it.v.rhs[it.dot + 1]
Waits(it, cat, n) == ~Complete(it) /\ NextC(it).t = "r" /\ NextC(it).p = cat /\ Len(NextC(it).ar) = n
Advance(it) == [it EXCEPT !.dot = @ + 1]

RECURSIVE Close(_, _, _, _)
\* predict and complete until nothing new appears; sets: the item sets of earlier positions
Close(V, S, i, sets) ==
    LET open == {it \in S : ~Complete(it)}
        predicted == UNION {{[v |-> v, dot |-> 0, from |-> i]
                             : v \in {v \in V : Waits(it, v.lhs, v.n)}} : it \in open}
        completed == UNION {{Advance(w) : w \in {w \in sets[it.from] : Waits(w, it.v.lhs, it.v.n)}}
                            : it \in {it \in S : Complete(it) /\ it.from < i}}
        new == predicted \cup completed
    IN IF new \subseteq S THEN S ELSE Close(V, S \cup new, i, sets)

\* items that reach position i by a token
Scanned(text, re, i, sets) ==
    UNION {{Advance(it) : it \in {it \in sets[k] : ~Complete(it) /\ Tokens(NextC(it), text, re, k, i) # {}}}
           : k \in 0..(i - 1)}

RECURSIVE ItemSets(_, _, _, _, _)
ItemSets(V, text, re, i, sets) ==
    IF i > Len(text) THEN sets
    ELSE LET base == IF i = 0 THEN StartItems(V) ELSE Scanned(text, re, i, sets)
         IN ItemSets(V, text, re, i + 1, (i :> TLCEval(Close(V, base, i, sets))) @@ sets)

Chart(V, text, re) == ItemSets(V, text, re, 0, NoB)

\* the last position that a recognised token or constituent reaches
Reached(text, re, chart) ==
    LET ends == {i \in 1..Len(text) : Scanned(text, re, i, chart) # {}} IN
    IF ends = {} THEN 0 ELSE MaxOf(ends)

Accepted_(text, chart) ==
    \E it \in chart[Len(text)] : Complete(it) /\ it.from = 0 /\ it.v.lhs = Root

UnknownWord == "unknown_word"
NoSentence == "no_sentence"
NotUnderstood == "not_understood"
Dots == <<32, 46, 46, 46>>

\* the failure report for a text without readings: [type, args]
Failure(text, re, chart) ==
    LET m == Reached(text, re, chart) IN
    IF text = <<>> THEN [type |-> NoSentence, args |-> <<>>]
    ELSE IF m = Len(text) THEN [type |-> NotUnderstood, args |-> <<>>]
    ELSE [type |-> UnknownWord,
          args |-> << Slice(text, m, IF m + 9 < Len(text) THEN m + 9 ELSE Len(text)) \o Dots >>]

-----------------------------------------------------------------------------
(* preference among trees *)
RECURSIVE Boost(_, _), Regexps(_), Depth(_)
Boost(g, t) == (IF t.r = 0 THEN 0 ELSE g[t.r].boost) + SumSeq([i \in DOMAIN t.c |-> Boost(g, t.c[i])])
Regexps(t) == (IF t.t = "x" THEN 1 ELSE 0) + SumSeq([i \in DOMAIN t.c |-> Regexps(t.c[i])])
Depth(t) == 1 + (IF t.c = <<>> THEN 0 ELSE MaxOf({Depth(t.c[i]) : i \in DOMAIN t.c}))

\* t may come before u
Before(g, t, u) ==
    \/ Boost(g, t) > Boost(g, u)
    \/ Boost(g, t) = Boost(g, u) /\ \/ Regexps(t) < Regexps(u)
                                    \/ Regexps(t) = Regexps(u) /\ Depth(t) >= Depth(u)
Ordered(g, ts) == \A i \in 1..(Len(ts) - 1) : Before(g, ts[i], ts[i + 1])

-----------------------------------------------------------------------------
(* a tree is well-formed: used to explain a mismatch *)
IsAcceptedBy(g, text, re) ==
    LET tx == Collapse(text) IN Accepted_(tx, Chart(Variants(g), tx, re))
=============================================================================
