------------------------------- MODULE Range -------------------------------
(* Range requests on a file of n bytes.  Contract: the set of byte positions a   *)
(* list of range specs selects (RFC 9110).  Implementation shape: parse, clip,   *)
(* drop what is unsatisfiable, then read the file in pieces of at most Buf bytes *)
(* (a read may return less), as the single-part or multipart response.           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Sizes, Pos, Buf, MaxSpecs, Record
(* spec: [f |-> first or -1, l |-> last or -1]; f = -1 is a suffix of l bytes; l = -1 is open *)
Specs == {s \in [f : Pos \cup {-1}, l : Pos \cup {-1}] : s.f # -1 \/ s.l # -1}
Selected(n, s) == IF s.f = -1 THEN {p \in 0..(n - 1) : p >= n - s.l} ELSE {p \in 0..(n - 1) : p >= s.f /\ (s.l = -1 \/ p <= s.l)}
VARIABLES n, req, plan, parts, cur, ph
vars == <<n, req, plan, parts, cur, ph>>
Clip(s) == LET last == n - 1
               b == IF s.f = -1 THEN (IF s.l >= n THEN 0 ELSE n - s.l) ELSE s.f
               e == IF s.f = -1 \/ s.l = -1 \/ s.l > last THEN last ELSE s.l IN
           IF n = 0 \/ (s.f = -1 /\ s.l = 0) \/ b > e THEN <<>> ELSE <<[b |-> b, e |-> e]>>
RECURSIVE ClipAll(_)
ClipAll(q) == IF q = <<>> THEN <<>> ELSE Clip(q[1]) \o ClipAll(Tail(q))
Init == /\ n \in Sizes /\ req \in UNION {[1..k -> Specs] : k \in 0..MaxSpecs}
        /\ plan = <<>> /\ parts = <<>> /\ cur = [b |-> 0, left |-> 0, out |-> <<>>] /\ ph = "parse"
Parse == /\ ph = "parse"
         /\ LET p == IF req = <<>> THEN <<[b |-> 0, e |-> n - 1]>> ELSE ClipAll(req) IN
            /\ plan' = p
            /\ ph' = IF p = <<>> THEN "416" ELSE "send"
            /\ cur' = IF p = <<>> THEN cur ELSE [b |-> p[1].b, left |-> p[1].e - p[1].b + 1, out |-> <<>>]
         /\ UNCHANGED <<n, req, parts>>
Read == /\ ph = "send" /\ cur.left > 0
        /\ \E k \in 1..Buf : k <= cur.left /\ cur' = [b |-> cur.b + k, left |-> cur.left - k, out |-> cur.out \o [i \in 1..k |-> cur.b + i - 1]]
        /\ UNCHANGED <<n, req, plan, parts, ph>>
EndPart == /\ ph = "send" /\ cur.left = 0
           /\ parts' = Append(parts, cur.out)
           /\ IF Len(parts') = Len(plan) THEN ph' = "done" /\ cur' = cur
              ELSE ph' = ph /\ LET r == plan[Len(parts') + 1] IN cur' = [b |-> r.b, left |-> r.e - r.b + 1, out |-> <<>>]
           /\ UNCHANGED <<n, req, plan>>
Next == Parse \/ Read \/ EndPart
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
----------------------------------------------------------------------------
Sat == SelectSeq([i \in DOMAIN req |-> Selected(n, req[i])], LAMBDA S : S # {})
Refused == ph = "416" <=> (ph # "parse" /\ req # <<>> /\ Sat = <<>>)
Bytes == ph = "done" => IF req = <<>> THEN Len(parts) = 1 /\ parts[1] = [i \in 1..n |-> i - 1]
                        ELSE /\ Len(parts) = Len(Sat)
                             /\ \A i \in DOMAIN parts : {parts[i][j] : j \in DOMAIN parts[i]} = Sat[i] /\ Len(parts[i]) = Cardinality(Sat[i])
                                                        /\ \A j \in DOMAIN parts[i] : parts[i][j] = parts[i][1] + j - 1
Headers == ph \in {"send", "done"} /\ req # <<>> => \A i \in DOMAIN plan : plan[i].e - plan[i].b + 1 = Cardinality(Sat[i])
Ends == <>(ph \in {"done", "416"})
(* case generation: only the plan is needed, with real sizes *)
GenNext == Parse
Emit == (Record /\ ph \in {"send", "416"}) => PrintT("@@" \o ToJson([n |-> n, req |-> req, plan |-> plan, refused |-> ph = "416"]))
(* random lists *)
RInit == n = 0 /\ req = <<>> /\ plan = <<>> /\ parts = <<>> /\ cur = [b |-> 0, left |-> 0, out |-> <<>>] /\ ph = "pick"
RS == RandomElement(IF n >= 0 THEN Specs ELSE {})
Pick == /\ ph = "pick" /\ ph' = "parse"
        /\ n' \in {RandomElement(IF ph = "pick" THEN Sizes ELSE {0})}
        /\ req' \in {<<RS, RS>> \o (IF RandomElement(IF ph = "pick" THEN BOOLEAN ELSE {TRUE}) THEN <<RS>> ELSE <<>>)}
        /\ UNCHANGED <<plan, parts, cur>>
RNext == Pick \/ GenNext
=============================================================================
