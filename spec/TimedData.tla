----------------------------- MODULE TimedData -----------------------------
(* Replaced by recorded runs when Timed.tla judges them.                      *)
EXTENDS Sequences
Traces == <<>>
=============================================================================
