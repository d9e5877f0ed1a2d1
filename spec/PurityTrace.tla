----------------------------- MODULE PurityTrace ----------------------------
(***************************************************************************)
(* Results depend on the arguments only: validation of recorded histories. *)
(* The machine's only state is what each call (an operation with its       *)
(* arguments) has returned; a call never seen may return anything, a call  *)
(* seen before must return the same again - whatever fresh memory held,    *)
(* whatever ran in between, and in whichever thread or process.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Log == TLCEval(ndJsonDeserialize(IOEnv.VP_TRACE))

VARIABLES i, pos, memo, ok
vars == <<i, pos, memo, ok>>

Init == i \in 1..Len(Log) /\ pos = 0 /\ memo = <<>> /\ ok = TRUE
Event == Log[i].ev[pos + 1]

First(e)  == e.c \notin DOMAIN memo /\ memo' = memo @@ (e.c :> e.d) /\ ok' = TRUE
Again(e)  == e.c \in DOMAIN memo /\ memo' = memo /\ ok' = (memo[e.c] = e.d)
Next == /\ ok /\ pos < Len(Log[i].ev)
        /\ pos' = pos + 1 /\ UNCHANGED i
        /\ (First(Event) \/ Again(Event))
Spec == Init /\ [][Next]_vars

Function == ok
=============================================================================
