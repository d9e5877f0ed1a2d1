----------------------------- MODULE DecompTrace ----------------------------
(***************************************************************************)
(* Validation of recorded executions of the decompositions and solvers:    *)
(* one record per line of the trace file, judged by Decomp.                *)
(***************************************************************************)
EXTENDS Decomp, Numeric, Json, IOUtils

Log == TLCEval(ndJsonDeserialize(IOEnv.VP_TRACE))
Prop == IOEnv.VP_PROP

\* The same executions serve several properties.
Judge(r) == CASE Prop = "D09" -> SVDViolated(r)
              [] Prop = "D10" -> RankViolated(r)
              [] r.op \in NumericOps -> NumericViolated(r)
              [] OTHER -> Violated(r)

VARIABLES i, bad      \* record under judgement; violated clauses ("?" before judgement)
Init == i \in 1..Len(Log) /\ bad = {"?"}
Next == bad = {"?"} /\ bad' = Judge(Log[i]) /\ UNCHANGED i
Spec == Init /\ [][Next]_<<i, bad>>
Allowed == bad \in {{"?"}, {}}
=============================================================================
