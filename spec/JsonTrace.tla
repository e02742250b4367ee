----------------------------- MODULE JsonTrace -----------------------------
(* Texts written by the implementation, judged by the specification: each    *)
(* must be a JSON text whose value is the one that was written.              *)
EXTENDS TypedJson, JsonTraceData
VARIABLE n
Init == n = 1
Next == n <= Len(Cases) /\ n' = n + 1
Judged(c) == LET r == Verdict(T(c.t), c.s) IN r.d = "value" /\ (c.num \/ r.v = c.v)
Accepts == n <= Len(Cases) => (Judged(Cases[n]) \/ PrintT("@@" \o ToString(n)))
=============================================================================
