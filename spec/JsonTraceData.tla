--------------------------- MODULE JsonTraceData ---------------------------
(* Replaced by the texts to be judged when JsonTrace.tla is run.             *)
EXTENDS Sequences
Cases == <<>>
=============================================================================
