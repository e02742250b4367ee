--------------------------- MODULE HttpClientData ---------------------------
(* Replaced by recorded runs when HttpClient.tla judges them.                 *)
EXTENDS Sequences
Traces == <<>>
=============================================================================
