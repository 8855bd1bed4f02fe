------------------------------ MODULE RuleText -------------------------------
(* The rule notation over character codes: the rules a text denotes, or that *)
(* it is rejected.                                                           *)
(*   rulebase = { rule }                                                     *)
(*   rule     = atom [ ":-" body ] "."                                       *)
(*   body     = "(" body ")" | item { "," item }                             *)
(*   item     = atom | "(" body { ";" body } ")"                             *)
(*   atom     = name "(" [ term { "," term } [","] ] ")"                     *)
(*   term     = string | number | variable | body                            *)
(* Alternatives are tried in the order given and the first that can be read  *)
(* counts; white space and comments may stand between any two tokens.        *)
(* Values: all names and strings are sequences of character codes, numbers   *)
(* their canonical digits.                                                   *)
EXTENDS Util

LF == 10
Hash == 35
SQ == 39
DQ == 34
BS == 92
Minus == 45
Dot == 46
IsDigit(c) == c \in 48..57
IsUpper(c) == c \in 65..90
IsWordC(c) == IsDigit(c) \/ IsUpper(c) \/ c \in 97..122 \/ c = 95 \/ c \in 192..591
IsSpace(c) == c \in {9, 10, 11, 12, 13, 32}
Punct == {<<46, ".">>, <<44, ",">>, <<59, ";">>, <<40, "(">>, <<41, ")">>}
IsPunct(c) == \E p \in Punct : p[1] = c
PunctOf(c) == (CHOOSE p \in Punct : p[1] = c)[2]

-----------------------------------------------------------------------------
\* tokens: [k |-> kind, c |-> the characters, j |-> where the next one starts]
At(s, i) == IF i <= Len(s) THEN s[i] ELSE 0
RECURSIVE EndWord(_, _), EndDigits(_, _), EndLine(_, _), EndString(_, _, _), Unescape(_, _, _)
EndWord(s, i) == IF IsWordC(At(s, i)) THEN EndWord(s, i + 1) ELSE i
EndDigits(s, i) == IF IsDigit(At(s, i)) THEN EndDigits(s, i + 1) ELSE i
EndLine(s, i) == IF i > Len(s) \/ s[i] = LF THEN i ELSE EndLine(s, i + 1)
\* the position after the closing quote; 0: there is none
EndString(s, i, q) == IF i > Len(s) THEN 0
                      ELSE IF s[i] = BS /\ At(s, i + 1) = q THEN EndString(s, i + 2, q)
                      ELSE IF s[i] = q THEN i + 1 ELSE EndString(s, i + 1, q)
Unescape(s, i, q) == IF i > Len(s) THEN <<>>
                     ELSE IF s[i] = BS /\ At(s, i + 1) = q THEN <<q>> \o Unescape(s, i + 2, q)
                     ELSE <<s[i]>> \o Unescape(s, i + 1, q)

NumberAt(s, i) ==
    LET a == EndDigits(s, IF s[i] = Minus THEN i + 1 ELSE i)
    IN  IF At(s, a) = Dot /\ IsDigit(At(s, a + 1))
        THEN LET b == EndDigits(s, a + 1) IN [k |-> "flt", c |-> SubSeq(s, i, b - 1), j |-> b]
        ELSE [k |-> "int", c |-> SubSeq(s, i, a - 1), j |-> a]
TokenAt(s, i) ==
    LET c == s[i] IN
    CASE IsSpace(c) -> [k |-> "space", c |-> <<>>, j |-> i + 1]
      [] c = Hash -> [k |-> "space", c |-> <<>>, j |-> EndLine(s, i)]
      [] IsPunct(c) -> [k |-> PunctOf(c), c |-> <<>>, j |-> i + 1]
      [] c = 58 /\ At(s, i + 1) = Minus -> [k |-> ":-", c |-> <<>>, j |-> i + 2]
      [] IsDigit(c) \/ (c = Minus /\ IsDigit(At(s, i + 1))) -> NumberAt(s, i)
      [] c \in {SQ, DQ} ->
            LET j == EndString(s, i + 1, c) IN
            IF j = 0 THEN [k |-> IF \E n \in i..(Len(s) - 1) : s[n] = BS /\ s[n + 1] = c THEN "open" ELSE "bad", c |-> <<>>, j |-> i + 1]
            ELSE [k |-> "str", c |-> Unescape(SubSeq(s, i + 1, j - 2), 1, c), j |-> j]
      [] IsWordC(c) -> LET j == EndWord(s, i) IN [k |-> "word", c |-> SubSeq(s, i, j - 1), j |-> j]
      [] OTHER -> [k |-> "bad", c |-> <<>>, j |-> i + 1]
RECURSIVE TokensFrom(_, _, _)
TokensFrom(s, i, acc) ==
    IF i > Len(s) THEN acc
    ELSE LET t == TokenAt(s, i) IN TokensFrom(s, t.j, IF t.k = "space" THEN acc ELSE Append(acc, t))
Tokens(s) == TokensFrom(s, 1, <<>>)

-----------------------------------------------------------------------------
\* values
RECURSIVE DropLead(_), DropTrail(_)
DropLead(d) == IF Len(d) > 1 /\ d[1] = 48 THEN DropLead(Tail(d)) ELSE d
DropTrail(d) == IF d # <<>> /\ d[Len(d)] = 48 THEN DropTrail(SubSeq(d, 1, Len(d) - 1)) ELSE d
IntValue(c) == LET neg == c[1] = Minus
                   d == DropLead(IF neg THEN Tail(c) ELSE c)
               IN  [k |-> "int", c |-> (IF neg /\ d # <<48>> THEN <<Minus>> ELSE <<>>) \o d]
FltValue(c) == LET neg == c[1] = Minus
                   b == IF neg THEN Tail(c) ELSE c
                   p == IndexOf(b, Dot)
                   w == DropLead(SubSeq(b, 1, p - 1))
                   f == DropTrail(SubSeq(b, p + 1, Len(b)))
                   abs == IF f = <<>> THEN w ELSE w \o <<Dot>> \o f
                   c2 == (IF neg /\ abs # <<48>> THEN <<Minus>> ELSE <<>>) \o abs
               IN  \* binary floats hold about 15 digits
                   [k |-> "flt", c |-> IF Len(c2) > 15 THEN SubSeq(c2, 1, 12) ELSE c2]
StrValue(c) == [k |-> "c", c |-> c]
VarValue(c) == [k |-> "vc", c |-> c]
DisjunctionName == <<36, 100, 105, 115, 106, 117, 110, 99, 116, 105, 111, 110>>
AtomV(name, terms) == TupT(<<StrValue(name)>> \o terms)

\* reading
No == [ok |-> FALSE]
Kind(ts, i) == IF i <= Len(ts) THEN ts[i].k ELSE "end"
RECURSIVE AtomAt(_, _), TermAt(_, _), TermsFrom(_, _, _), BodyAt(_, _), ItemAt(_, _), ItemsFrom(_, _, _), AltsFrom(_, _, _)
AtomAt(ts, i) ==
    IF ~ (Kind(ts, i) \in {"word", "int"} /\ Kind(ts, i + 1) = "(") \/ ts[i].c[1] = Minus THEN No
    ELSE LET x == TermsFrom(ts, i + 2, <<>>) IN
         IF Kind(ts, x.i) = ")" THEN [ok |-> TRUE, v |-> AtomV(ts[i].c, x.v), i |-> x.i + 1] ELSE No
TermsFrom(ts, i, acc) ==
    LET x == TermAt(ts, i) IN
    IF ~ x.ok THEN [v |-> acc, i |-> i]
    ELSE IF Kind(ts, x.i) = "," THEN TermsFrom(ts, x.i + 1, Append(acc, x.v))
    ELSE [v |-> Append(acc, x.v), i |-> x.i]
TermAt(ts, i) ==
    LET k == Kind(ts, i)
        One(v) == [ok |-> TRUE, v |-> v, i |-> i + 1]
    IN  CASE k = "str" -> One(StrValue(ts[i].c))
          [] k = "int" -> One(IntValue(ts[i].c))
          [] k = "flt" -> One(FltValue(ts[i].c))
          [] k = "word" /\ IsUpper(ts[i].c[1]) -> One(VarValue(ts[i].c))
          [] k \in {"word", "("} -> LET x == BodyAt(ts, i) IN IF x.ok THEN [x EXCEPT !.v = ListT(x.v)] ELSE No
          [] OTHER -> No
BodyAt(ts, i) ==
    LET g == IF Kind(ts, i) = "(" THEN BodyAt(ts, i + 1) ELSE No
    IN  IF g.ok /\ Kind(ts, g.i) = ")" THEN [ok |-> TRUE, v |-> g.v, i |-> g.i + 1]
        ELSE ItemsFrom(ts, i, <<>>)
ItemsFrom(ts, i, acc) ==
    LET x == ItemAt(ts, i) IN
    IF ~ x.ok THEN No
    ELSE IF Kind(ts, x.i) = "," THEN ItemsFrom(ts, x.i + 1, Append(acc, x.v))
    ELSE [ok |-> TRUE, v |-> Append(acc, x.v), i |-> x.i]
ItemAt(ts, i) ==
    LET x == AtomAt(ts, i) IN
    IF x.ok THEN x
    ELSE IF Kind(ts, i) # "(" THEN No
    ELSE AltsFrom(ts, i + 1, <<>>)
AltsFrom(ts, i, acc) ==
    LET x == BodyAt(ts, i) IN
    IF ~ x.ok THEN No
    ELSE IF Kind(ts, x.i) = ";" THEN AltsFrom(ts, x.i + 1, Append(acc, ListT(x.v)))
    ELSE IF Kind(ts, x.i) = ")" THEN [ok |-> TRUE, v |-> AtomV(DisjunctionName, <<ListT(Append(acc, ListT(x.v)))>>), i |-> x.i + 1]
    ELSE No
RuleAt(ts, i) ==
    LET h == AtomAt(ts, i)
        b == IF h.ok /\ Kind(ts, h.i) = ":-" THEN BodyAt(ts, h.i + 1) ELSE No
        e == IF ~ h.ok THEN 0 ELSE IF Kind(ts, h.i) # ":-" THEN h.i ELSE IF b.ok THEN b.i ELSE 0
    IN  IF e = 0 \/ Kind(ts, e) # "." THEN No
        ELSE [ok |-> TRUE, v |-> [head |-> h.v, body |-> IF b.ok THEN b.v ELSE <<>>], i |-> e + 1]
RECURSIVE RulesFrom(_, _, _)
RulesFrom(ts, i, acc) ==
    IF i > Len(ts) THEN [ok |-> TRUE, v |-> acc]
    ELSE LET x == RuleAt(ts, i) IN IF x.ok THEN RulesFrom(ts, x.i, Append(acc, x.v)) ELSE No

\* what the text denotes; a string that is never closed, unless by an escaped quote, has no specified reading
ReadTokens(ts) == IF \E i \in DOMAIN ts : ts[i].k = "open" THEN [ok |-> TRUE, any |-> TRUE, v |-> <<>>]
                  ELSE RulesFrom(ts, 1, <<>>) @@ [any |-> FALSE]
Read(s) == ReadTokens(Tokens(s))
==============================================================================
