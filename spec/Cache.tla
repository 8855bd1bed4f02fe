-------------------------------- MODULE Cache --------------------------------
(* The query result cache, as its users may rely on it. A source answers     *)
(* selections from the tables of its endpoint and language; it may have a    *)
(* cache directory, shared with other processes. Selections can be           *)
(* interleaved, processes can die, files can be damaged.                     *)
(*   kept: selections that are in the cache for certain ("yes"), or perhaps  *)
(*         ("maybe": a process died while it was working on one, or the      *)
(*         files were damaged, or could not be written)                      *)
EXTENDS Data

Sel(src, t, cols, vals) == [src |-> src, t |-> t, cols |-> cols, vals |-> vals]
Kept(kept, s) == IF s \in DOMAIN kept THEN kept[s] ELSE "no"
Rows(tables, s) == Selection(tables, s.src \o " " \o s.t, s.cols, s.vals)

Doubt(kept, S) == [s \in (DOMAIN kept) \cup S |-> IF s \in S THEN "maybe" ELSE kept[s]]
Remember(kept, s, sure) == (s :> (IF sure \/ Kept(kept, s) = "yes" THEN "yes" ELSE "maybe")) @@ kept

\* a selection that was started when its status was before, has ended:
\* sent: how many requests were sent; failing: the endpoint refuses
RightRows(rows, out) == ~ out.e => SameBag(out.r, rows)
RightError(out, sent, failing) == /\ out.e => failing
                                  /\ (failing /\ sent > 0) => out.e
NotSentAgain(before, sent) == before = "yes" => sent = 0
==============================================================================
