------------------------------ MODULE Pipeline -------------------------------
(* The pipeline of blocks as a machine with an explicit stack.               *)
(* pipe: sequence of [kind |-> "one" | "all" | "first", procs]:              *)
(*   procs |-> [any |-> name]              the block's own processor         *)
(*   procs |-> [locale |-> name, ...]      one processor for each locale     *)
(*   sel |-> TRUE                          the language selector             *)
(* An outcome of a processor is [err, args, prods]: err = "" and products,   *)
(* or an error with arguments.                                               *)
(* The machine waits for the outcome of the call that is due; Outcome(m, o)  *)
(* is the machine after it.                                                  *)
EXTENDS Util

\* frames: the blocks being processed, frame i is for pipe[i]:
\*   [prods, i: the alternative being tried, ok: one has succeeded, err, args: the first error]
\* cur: current product of each block; alts: the alternatives kept for each block
Fresh0(pipe) == [pipe |-> pipe, frames |-> <<>>, due |-> 1, done |-> FALSE, raised |-> FALSE,
                 cur |-> [d \in {} |-> 0], alts |-> [d \in DOMAIN pipe |-> <<>>],
                 err |-> "", args |-> <<>>]

Sel(m) == CHOOSE d \in DOMAIN m.pipe : m.pipe[d].sel
Multi(block) == "any" \notin DOMAIN block.procs
\* the locale that is being tried
Locale(m) == m.cur[Sel(m)]
\* the processor that is called, "" if there is none: that is an error
Due(m) == LET b == m.pipe[m.due] IN
          IF ~Multi(b) THEN b.procs["any"] ELSE IF Locale(m) \in DOMAIN b.procs THEN b.procs[Locale(m)] ELSE ""
\* what the called processor sees
Seen(m) == [d \in 1..(m.due - 1) |-> m.cur[d]]

Raised(m) == [m EXCEPT !.done = TRUE, !.raised = TRUE]

RECURSIVE Unwind(_, _, _), Descend(_)
\* the block at depth Len(frames)+1 has finished with err; its caller goes on
Unwind(m, err, args) ==
    IF m.frames = <<>> THEN [m EXCEPT !.done = TRUE, !.err = err, !.args = args]
    ELSE LET d == Len(m.frames)
             f == m.frames[d]
             g == [f EXCEPT !.ok = @ \/ err = "",
                            !.err = IF @ = "" THEN err ELSE @,
                            !.args = IF f.err = "" /\ err # "" THEN args ELSE @]
             kind == m.pipe[d].kind
             stop == \/ f.i = Len(f.prods)
                     \/ kind = "one" /\ err = ""
                     \/ kind = "first"
             below == [m EXCEPT !.frames = SubSeq(@, 1, d - 1)]
         IN IF stop THEN IF g.ok THEN Unwind(below, "", <<>>) ELSE Unwind(below, g.err, g.args)
            ELSE \* the next alternative
                 Descend([m EXCEPT !.frames[d] = [g EXCEPT !.i = @ + 1], !.cur = (d :> f.prods[f.i + 1]) @@ @])
Descend(m) == IF Len(m.frames) = Len(m.pipe) THEN Unwind(m, "", <<>>) ELSE [m EXCEPT !.due = Len(m.frames) + 1]

\* o.prods is not empty unless there is an error
Outcome(m, o) ==
    LET d == m.due IN
    IF o.err # "" THEN Unwind(m, o.err, o.args)
    ELSE Descend([m EXCEPT !.frames = Append(@, [prods |-> o.prods, i |-> 1, ok |-> FALSE, err |-> "", args |-> <<>>]),
                           !.cur = (d :> o.prods[1]) @@ @,
                           !.alts[d] = IF m.pipe[d].kind = "all" THEN @ \o o.prods ELSE o.prods])

-----------------------------------------------------------------------------
(* The same, said directly: the result of block d with the outcomes of the   *)
(* calls in order from index k; [err, args, k: next index].                  *)
RECURSIVE Denote(_, _, _, _), DenoteAlts(_, _, _, _, _, _)
DenoteAlts(pipe, d, os, k, n, acc) ==
    IF n = 0 THEN acc
    ELSE LET r == Denote(pipe, d + 1, os, k)
             acc2 == [ok |-> acc.ok \/ r.err = "", err |-> IF acc.err = "" THEN r.err ELSE acc.err,
                      args |-> IF acc.err = "" THEN r.args ELSE acc.args, k |-> r.k]
         IN IF pipe[d].kind = "first" \/ (pipe[d].kind = "one" /\ r.err = "") THEN acc2
            ELSE DenoteAlts(pipe, d, os, r.k, n - 1, acc2)
Denote(pipe, d, os, k) ==
    IF d > Len(pipe) THEN [err |-> "", args |-> <<>>, k |-> k]
    ELSE IF os[k].err # "" THEN [err |-> os[k].err, args |-> os[k].args, k |-> k + 1]
    ELSE LET r == DenoteAlts(pipe, d, os, k + 1, Len(os[k].prods), [ok |-> FALSE, err |-> "", args |-> <<>>, k |-> k + 1]) IN
         IF r.ok THEN [err |-> "", args |-> <<>>, k |-> r.k] ELSE [err |-> r.err, args |-> r.args, k |-> r.k]
==============================================================================
