------------------------------ MODULE TraceBase ------------------------------
(* Reading a recorded trace and reporting total verdicts. Every event of the *)
(* trace is consumed by exactly one step; a mismatch is printed with the     *)
(* name of the failing clause and what the specification expected, and the   *)
(* specification goes on from its own state.                                 *)
EXTENDS Util, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

Report(ev, clause, expected) ==
    PrintT("@@M " \o ToJson([c |-> ev.c, i |-> ev.i, clause |-> clause, exp |-> expected]))

\* TRUE always; prints if the clause does not hold
Check(ev, holds, clause, expected) == IF holds THEN TRUE ELSE Report(ev, clause, expected)
==============================================================================
