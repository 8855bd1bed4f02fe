----------------------------- MODULE GrammarText -----------------------------
(* The notation of grammar rules over character codes: the rule a text       *)
(* denotes, or that it is rejected.                                          *)
(*   rule        = atom "->" constituent { [ "+" | "~" ] constituent }       *)
(*   atom        = name "(" [ variable { "," variable } [","] ] ")"          *)
(*   constituent = atom [ "?" ] | expression | string [ "?" ]                *)
(* "?" after an atom is in the notation of write grammars only. The join     *)
(* "+" means nothing stands between two constituents, "~" a space or         *)
(* nothing, no join a space.                                                 *)
(* A text with characters outside the notation, with an empty right side or  *)
(* with a join at its end has no specified reading.                          *)
EXTENDS Util

SQ == 39
DQ == 34
Slash == 47
BS == 92
IsDigit(c) == c \in 48..57
IsUpper(c) == c \in 65..90
IsWordC(c) == IsDigit(c) \/ IsUpper(c) \/ c \in 97..122 \/ c = 95 \/ c \in 192..591
IsSpace(c) == c \in {9, 10, 11, 12, 13, 32}
Punct == {<<63, "?">>, <<44, ",">>, <<40, "(">>, <<41, ")">>, <<43, "+">>, <<126, "~">>}
IsPunct(c) == \E p \in Punct : p[1] = c
PunctOf(c) == (CHOOSE p \in Punct : p[1] = c)[2]

-----------------------------------------------------------------------------
\* tokens: [k |-> kind, c |-> the characters, j |-> where the next one starts]
At(s, i) == IF i <= Len(s) THEN s[i] ELSE 0
RECURSIVE EndWord(_, _), EndQuoted(_, _, _), Unescape(_, _, _)
EndWord(s, i) == IF IsWordC(At(s, i)) THEN EndWord(s, i + 1) ELSE i
\* the position after the closing quote; 0: there is none
EndQuoted(s, i, q) == IF i > Len(s) THEN 0
                      ELSE IF s[i] = BS /\ At(s, i + 1) = q THEN EndQuoted(s, i + 2, q)
                      ELSE IF s[i] = q THEN i + 1 ELSE EndQuoted(s, i + 1, q)
Unescape(s, i, q) == IF i > Len(s) THEN <<>>
                     ELSE IF s[i] = BS /\ At(s, i + 1) = q THEN <<q>> \o Unescape(s, i + 2, q)
                     ELSE <<s[i]>> \o Unescape(s, i + 1, q)
TokenAt(s, i) ==
    LET c == s[i] IN
    CASE IsSpace(c) -> [k |-> "space", c |-> <<>>, j |-> i + 1]
      [] IsPunct(c) -> [k |-> PunctOf(c), c |-> <<>>, j |-> i + 1]
      [] c = 45 /\ At(s, i + 1) = 62 -> [k |-> "->", c |-> <<>>, j |-> i + 2]
      [] c \in {SQ, DQ, Slash} ->
            LET j == EndQuoted(s, i + 1, c) IN
            IF j \in {0, i + 2} THEN [k |-> "bad", c |-> <<>>, j |-> i + 1]
            ELSE [k |-> IF c = Slash THEN "exp" ELSE "str", c |-> Unescape(SubSeq(s, i + 1, j - 2), 1, c), j |-> j]
      [] IsWordC(c) -> LET j == EndWord(s, i) IN [k |-> "word", c |-> SubSeq(s, i, j - 1), j |-> j]
      [] OTHER -> [k |-> "bad", c |-> <<>>, j |-> i + 1]
RECURSIVE TokensFrom(_, _, _)
TokensFrom(s, i, acc) ==
    IF i > Len(s) THEN acc
    ELSE LET t == TokenAt(s, i) IN TokensFrom(s, t.j, IF t.k = "space" THEN acc ELSE Append(acc, t))
Tokens(s) == TokensFrom(s, 1, <<>>)

-----------------------------------------------------------------------------
\* constituents: [t |-> "r" | "w" | "x", c |-> the characters, ar |-> arguments, o |-> optional?, j |-> the join before it]
Item(t, c, ar, o, j) == [t |-> t, c |-> c, ar |-> ar, o |-> o, j |-> j]
No == [ok |-> FALSE]
Kind(ts, i) == IF i <= Len(ts) THEN ts[i].k ELSE "end"
RECURSIVE ArgsFrom(_, _, _), ItemsFrom(_, _, _, _, _)
ArgsFrom(ts, i, acc) ==
    IF Kind(ts, i) # "word" THEN [v |-> acc, i |-> i]
    ELSE IF ~ IsUpper(ts[i].c[1]) THEN [v |-> acc, i |-> i]
    ELSE IF Kind(ts, i + 1) = "," THEN ArgsFrom(ts, i + 2, Append(acc, ts[i].c))
    ELSE [v |-> Append(acc, ts[i].c), i |-> i + 1]
AtomAt(ts, i) ==
    IF Kind(ts, i) # "word" \/ Kind(ts, i + 1) # "(" THEN No
    ELSE LET a == ArgsFrom(ts, i + 2, <<>>) IN
         IF Kind(ts, a.i) = ")" THEN [ok |-> TRUE, c |-> ts[i].c, ar |-> a.v, i |-> a.i + 1] ELSE No
ItemAt(ts, i, join, write) ==
    LET a == AtomAt(ts, i)
        k == Kind(ts, i)
        Marked(e, allowed) == allowed /\ Kind(ts, e) = "?"
        Done(t, c, ar, e, allowed) == [ok |-> TRUE, v |-> Item(t, c, ar, Marked(e, allowed), join),
                                       i |-> IF Marked(e, allowed) THEN e + 1 ELSE e]
    IN  IF a.ok THEN Done("r", a.c, a.ar, a.i, write)
        ELSE IF k = "exp" THEN Done("x", ts[i].c, <<>>, i + 1, FALSE)
        ELSE IF k = "str" THEN Done("w", ts[i].c, <<>>, i + 1, TRUE)
        ELSE No
\* the constituents from position i on; any: there is no specified reading
ItemsFrom(ts, i, join, write, acc) ==
    LET x == ItemAt(ts, i, join, write)
        n == IF x.ok THEN Kind(ts, x.i) ELSE "end"
    IN  IF ~ x.ok THEN [ok |-> FALSE, any |-> i > Len(ts), v |-> <<>>]
        ELSE IF n = "end" THEN [ok |-> TRUE, any |-> FALSE, v |-> Append(acc, x.v)]
        ELSE IF n \in {"+", "~"} THEN ItemsFrom(ts, x.i + 1, n, write, Append(acc, x.v))
        ELSE ItemsFrom(ts, x.i, " ", write, Append(acc, x.v))

\* [ok, any, lhs, ar, rhs]
Read(s, write) ==
    LET ts == Tokens(s)
        h == AtomAt(ts, 1)
        b == IF h.ok /\ Kind(ts, h.i) = "->" THEN ItemsFrom(ts, h.i + 1, " ", write, <<>>) ELSE No @@ [any |-> FALSE, v |-> <<>>]
    IN  [ok |-> b.ok, any |-> b.any \/ \E i \in DOMAIN ts : ts[i].k = "bad",
         lhs |-> IF h.ok THEN h.c ELSE <<>>, ar |-> IF h.ok THEN h.ar ELSE <<>>, rhs |-> b.v]

-----------------------------------------------------------------------------
(* the forms of a rule: the optional words and the joins written out *)
Form(x) == [t |-> x.t, c |-> x.c, ar |-> x.ar, o |-> x.t = "r" /\ x.o]
SpaceForm == [t |-> "w", c |-> <<32>>, ar |-> <<>>, o |-> FALSE]
AfterKept(kept, x) ==
    IF kept = <<>> THEN {<<Form(x)>>}
    ELSE (IF x.j \in {" ", "~"} THEN {kept \o <<SpaceForm, Form(x)>>} ELSE {}) \cup
         (IF x.j \in {"+", "~"} THEN {Append(kept, Form(x))} ELSE {})
RECURSIVE FormsFrom(_, _, _)
FormsFrom(rhs, k, kept) ==
    IF k > Len(rhs) THEN {kept}
    ELSE UNION {FormsFrom(rhs, k + 1, x) : x \in AfterKept(kept, rhs[k])}
         \cup (IF rhs[k].o /\ rhs[k].t = "w" THEN FormsFrom(rhs, k + 1, kept) ELSE {})
Forms(rhs) == FormsFrom(rhs, 1, <<>>)
==============================================================================
