------------------------------- MODULE MC_Data -------------------------------
(* All short histories of inserting records in a table of two columns, and   *)
(* all selections after them, which are the relational ones: a selection is  *)
(* the restriction by each of its conditions, in any order, of all records.  *)
(* Every history is printed, to be replayed in every kind of data source.    *)
EXTENDS Data, Json
CONSTANTS MaxLen
VARIABLES store, hist
vars == <<store, hist>>

Values == {Str("a"), Int_(0), None}
Columns == {<<"c0">>, <<"c1">>, <<"c0", "c1">>, <<"c1", "c0">>}
Queries == UNION {{<<cs, vs>> : vs \in [DOMAIN cs -> Values]} : cs \in Columns}
Init == store = [x \in {} |-> <<>>] /\ hist = <<>>
Next == /\ Len(hist) < MaxLen
        /\ \E q \in Queries :
              /\ store' = AddRecord(store, "t", q[1], q[2])
              /\ hist' = Append(hist, [op |-> "insert", t |-> "t", cols |-> q[1], vals |-> q[2]])
              /\ PrintT("@@B " \o ToJson(hist'))
Spec == Init /\ [][Next]_vars

\* the second reading: relations as bags of functions from the columns to values
Rows == [i \in DOMAIN hist |-> [c \in {"c0", "c1"} |-> IF \E j \in DOMAIN hist[i].cols : hist[i].cols[j] = c
                                                       THEN hist[i].vals[CHOOSE j \in DOMAIN hist[i].cols : hist[i].cols[j] = c] ELSE None]]
Times(S, row) == Cardinality({i \in S : Rows[i] = row})
Given(q) == {j \in DOMAIN q[1] : q[2][j] # None}
Having(c, v) == {i \in DOMAIN Rows : Rows[i][c] = v}
RECURSIVE Narrow(_, _, _)
Narrow(S, q, js) == IF js = {} THEN S ELSE LET j == CHOOSE j \in js : TRUE IN Narrow(S \cap Having(q[1][j], q[2][j]), q, js \ {j})
Out(q) == Selection(store, "t", q[1], q[2])
Occurs(s, x) == Cardinality({i \in DOMAIN s : s[i] = x})
Relational == \A q \in Queries :
    LET S == Narrow(DOMAIN Rows, q, Given(q))  out == Out(q) IN
    /\ Len(out) = Cardinality(S)
    /\ \A i \in S : LET p == [k \in DOMAIN q[1] |-> Rows[i][q[1][k]]] IN
          Occurs(out, p) = Cardinality({m \in S : [k \in DOMAIN q[1] |-> Rows[m][q[1][k]]] = p})
\* the order of the columns only orders the fields
Reversed == \A q \in Queries : Len(q[1]) = 2 =>
    LET r == <<<<q[1][2], q[1][1]>>, <<q[2][2], q[2][1]>>>> IN
    Out(q) = [i \in DOMAIN Out(r) |-> <<Out(r)[i][2], Out(r)[i][1]>>]
\* a table that was not filled has no records, and other tables are not affected
Others == \A q \in Queries : Selection(store, "u", q[1], q[2]) = <<>>
\* a condition removes records and changes none
Narrower == \A q \in Queries : \A i \in DOMAIN Out(q) :
    \E k \in DOMAIN Selection(store, "t", q[1], [j \in DOMAIN q[1] |-> None]) :
        Selection(store, "t", q[1], [j \in DOMAIN q[1] |-> None])[k] = Out(q)[i]
==============================================================================
