----------------------------- MODULE RenderTrace ----------------------------
(* Recorded renderings of matrices of built-in element types: r.m holds the *)
(* renderings of the elements, r.s the rendering of the matrix, r.p what    *)
(* printing it wrote to the standard output.                                *)
EXTENDS Render, Json, IOUtils
Log == TLCEval(ndJsonDeserialize(IOEnv.VP_TRACE))
VARIABLES i, ok
Init == i \in 1..Len(Log) /\ ok = "?"
Next == ok = "?" /\ ok' = (LET t == Rendering(Log[i].m) IN IF Log[i].s = t /\ Log[i].p = t THEN "yes" ELSE "no") /\ UNCHANGED i
Spec == Init /\ [][Next]_<<i, ok>>
Rendered == ok # "no"
=============================================================================
