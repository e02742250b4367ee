--------------------------- MODULE ServerStopData ---------------------------
(* Replaced by recorded runs when ServerStop.tla judges them.                 *)
EXTENDS Sequences
Traces == <<>>
=============================================================================
