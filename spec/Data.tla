-------------------------------- MODULE Data ---------------------------------
(* Tables, as a data source should present them.                             *)
(* store: table name -> sequence of records [cols, vals]                     *)
EXTENDS Csv

Cell(rec, col) == IF \E j \in DOMAIN rec.vals : rec.cols[j] = col
                  THEN rec.vals[CHOOSE j \in DOMAIN rec.vals : rec.cols[j] = col] ELSE None
RecordsOf(store, t) == IF t \in DOMAIN store THEN store[t] ELSE <<>>
Project(rec, cols) == [i \in DOMAIN cols |-> Cell(rec, cols[i])]
\* an open value restricts nothing; a given value restricts to the records that have it
Fits(rec, cols, vals) == \A i \in DOMAIN cols : IsNone(vals[i]) \/ Cell(rec, cols[i]) = vals[i]
Selection(store, t, cols, vals) ==
    LET hits == SelectSeq(RecordsOf(store, t), LAMBDA rec : Fits(rec, cols, vals)) IN
    [i \in DOMAIN hits |-> Project(hits[i], cols)]

AddRecord(store, t, cols, vals) == (t :> Append(RecordsOf(store, t), [cols |-> cols, vals |-> vals])) @@ store

Chars(c) == [k |-> "c", c |-> c]
\* the first record names the columns
Import(store, t, text) ==
    LET rs == Records(text) IN
    IF rs = <<>> THEN store
    ELSE LET hdr == [i \in DOMAIN rs[1] |-> Chars(rs[1][i])]
             new == [i \in 1..(Len(rs) - 1) |-> [cols |-> hdr, vals |-> [j \in 1..MinOf({Len(rs[i + 1]), Len(hdr)}) |-> Chars(rs[i + 1][j])]]]
         IN (t :> RecordsOf(store, t) \o new) @@ store
==============================================================================
