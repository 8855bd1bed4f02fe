--------------------------------- MODULE Csv ---------------------------------
(* The CSV notation over character codes (RFC 4180, with any of the three    *)
(* line endings, and empty lines ignored): the records a file denotes.       *)
EXTENDS Util
Quote == 34  Comma == 44  LF == 10  CR == 13

\* a field that starts at position i: [f, i]
RECURSIVE QuotedFrom(_, _, _), BareFrom(_, _, _), RecordFrom(_, _, _), RecordsFrom(_, _, _)
QuotedFrom(s, i, acc) ==
    IF i > Len(s) THEN [f |-> acc, i |-> i]
    ELSE IF s[i] = Quote
         THEN IF i < Len(s) /\ s[i + 1] = Quote THEN QuotedFrom(s, i + 2, Append(acc, Quote))
              ELSE [f |-> acc, i |-> i + 1]
         ELSE QuotedFrom(s, i + 1, Append(acc, s[i]))
BareFrom(s, i, acc) ==
    IF i > Len(s) \/ s[i] \in {Comma, LF, CR} THEN [f |-> acc, i |-> i] ELSE BareFrom(s, i + 1, Append(acc, s[i]))
Field(s, i) == IF i <= Len(s) /\ s[i] = Quote THEN QuotedFrom(s, i + 1, <<>>) ELSE BareFrom(s, i, <<>>)

\* after the line ending at i
AfterLine(s, i) == IF i <= Len(s) /\ s[i] = CR /\ i < Len(s) /\ s[i + 1] = LF THEN i + 2 ELSE i + 1
RecordFrom(s, i, acc) ==
    LET x == Field(s, i) IN
    IF x.i <= Len(s) /\ s[x.i] = Comma THEN RecordFrom(s, x.i + 1, Append(acc, x.f))
    ELSE [r |-> Append(acc, x.f), i |-> AfterLine(s, x.i)]
RecordsFrom(s, i, acc) ==
    IF i > Len(s) THEN acc
    ELSE IF s[i] \in {LF, CR} THEN RecordsFrom(s, AfterLine(s, i), acc)
    ELSE LET x == RecordFrom(s, i, <<>>) IN RecordsFrom(s, x.i, Append(acc, x.r))
Records(s) == RecordsFrom(s, 1, <<>>)

-----------------------------------------------------------------------------
\* writing: quoted(field) fields are enclosed in quotes
RECURSIVE Escaped(_)
Escaped(f) == IF f = <<>> THEN <<>> ELSE (IF f[1] = Quote THEN <<Quote, Quote>> ELSE <<f[1]>>) \o Escaped(Tail(f))
MustQuote(f, alone) == (alone /\ f = <<>>) \/ \E i \in DOMAIN f : f[i] \in {Quote, Comma, LF, CR}
WriteField(f, q) == IF q THEN <<Quote>> \o Escaped(f) \o <<Quote>> ELSE f
\* qs: which fields are enclosed though they need not be
WriteRecord(r, qs) ==
    Flat([i \in DOMAIN r |-> (IF i > 1 THEN <<Comma>> ELSE <<>>) \o WriteField(r[i], qs[i] \/ MustQuote(r[i], Len(r) = 1))])
==============================================================================
