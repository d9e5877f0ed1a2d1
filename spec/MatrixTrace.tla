---------------------------- MODULE MatrixTrace -----------------------------
(***************************************************************************)
(* Validation of recorded histories: each line of the trace file is one    *)
(* history of calls over a bank of four matrices.  Every recorded call     *)
(* must be the step the machine takes for that call, with the recorded     *)
(* outcome and the recorded contents of all four matrices afterwards.      *)
(***************************************************************************)
EXTENDS MatrixMachine, Json, IOUtils

Log == TLCEval(ndJsonDeserialize(IOEnv.VP_TRACE))

VARIABLES i, pos, ok
tvars == <<bank, last, i, pos, ok>>

TInit == Init /\ i \in 1..Len(Log) /\ pos = 0 /\ ok = TRUE

Event == Log[i].ev[pos + 1]
\* The value a query returned (only looked at when the outcome is a value).
Value(e) == LET s == Sem(e.op, bank[e.x], bank[e.y], e.n) IN IF s.k = "val" THEN s.v ELSE <<>>

(* The call is taken by the machine, and the record shows the same step.   *)
TNext == /\ ok
         /\ pos < Len(Log[i].ev)
         /\ pos' = pos + 1
         /\ UNCHANGED i
         /\ Call(Event.op, Event.x, Event.y, Event.z, Event.n)
         /\ ok' = (/\ last' = Event.k
                   /\ Value(Event) = Event.v
                   /\ \A x \in Regs : bank'[x] = Event.bank[x])
TSpec == TInit /\ [][TNext]_tvars

Follows == ok
=============================================================================
