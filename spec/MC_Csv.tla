------------------------------- MODULE MC_Csv --------------------------------
(* Every file of two records with short fields is read as it was written.    *)
EXTENDS Csv, Json
CONSTANTS Alphabet, MaxLen, MaxCols
VARIABLES recs, text
Fields == UNION {[1..n -> Alphabet] : n \in 0..MaxLen}
Rows(k) == [1..k -> Fields]
Bools(k) == [1..k -> BOOLEAN]
NL == {<<10>>, <<13, 10>>, <<13>>, <<10, 10>>}
Init == \E k \in 1..MaxCols : \E r1 \in Rows(k), r2 \in Rows(k), b1 \in Bools(k), nl \in NL, last \in {<<>>, <<10>>} :
          /\ recs = <<r1, r2>>
          /\ text = WriteRecord(r1, b1) \o nl \o WriteRecord(r2, [i \in 1..k |-> ~b1[i]]) \o last
          /\ PrintT("@@B " \o ToJson([text |-> text, n |-> k]))
Next == UNCHANGED <<recs, text>>
Spec == Init /\ [][Next]_<<recs, text>>
RoundTrip == Records(text) = recs
==============================================================================
