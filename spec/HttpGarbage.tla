---------------------------- MODULE HttpGarbage ----------------------------
(* An attacker connection sends any sequence of tokens, then half-closes or   *)
(* resets; a second connection probes the server with ordinary requests.       *)
(* The attacked connection may be answered or closed at the server's choice;   *)
(* it must end once the attacker is done, and probes must be answered.         *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS NTok, Starts, Hdrs, Blank, Bodies, MaxLen, MaxProbe, Mode     \* Mode: "check" | "all" | "gen"
Toks == 1..NTok
\* mostly plausible continuations, sometimes anything
Likely(s) == LET t == IF s = <<>> THEN 0 ELSE s[Len(s)] IN
             IF t \in Starts \cup Hdrs THEN Hdrs \cup {Blank} ELSE IF t = Blank THEN Bodies \cup Starts ELSE Starts \cup Bodies
Draw(s) == LET r == RandomElement(1..8) IN IF r = 1 THEN Toks ELSE IF r < 4 /\ s # <<>> /\ s[Len(s)] \in Starts \cup Hdrs THEN {Blank} ELSE Likely(s)
VARIABLES sent, end, conn, probes, answered, seen, n
vars == <<sent, end, conn, probes, answered, seen, n>>
Init == sent = <<>> /\ end = "" /\ conn = "open" /\ probes = 0 /\ answered = 0 /\ seen = 0 /\ n = 0
Send(t) == end = "" /\ Len(sent) < MaxLen /\ sent' = Append(sent, t) /\ UNCHANGED <<end, conn, probes, answered, seen, n>>
Stop(e) == end = "" /\ sent # <<>> /\ end' = e /\ UNCHANGED <<sent, conn, probes, answered, seen, n>>
Probe == Mode = "check" /\ probes = answered /\ probes < MaxProbe /\ probes' = probes + 1 /\ UNCHANGED <<sent, end, conn, answered, seen, n>>
\* the server on the attacked connection: consume, answer (bounded by what was consumed), or give up
Consume == Mode = "check" /\ conn = "open" /\ seen < Len(sent) /\ seen' = seen + 1 /\ n' \in {n, n + 1} /\ UNCHANGED <<sent, end, conn, probes, answered>>
GiveUp == Mode = "check" /\ conn = "open" /\ seen > 0 /\ conn' = "closed" /\ UNCHANGED <<sent, end, probes, answered, seen, n>>
Eof == Mode = "check" /\ conn = "open" /\ end # "" /\ seen = Len(sent) /\ conn' = "closed" /\ UNCHANGED <<sent, end, probes, answered, seen, n>>
AnswerProbe == answered < probes /\ answered' = answered + 1 /\ UNCHANGED <<sent, end, conn, probes, seen, n>>
Server == Consume \/ Eof
Next == (\E t \in IF Mode = "gen" THEN {RandomElement(Draw(sent))} ELSE Toks : Send(t))
        \/ (\E e \in IF Mode = "gen" THEN (IF RandomElement(1..14) = 1 THEN {"half", "reset"} ELSE {}) ELSE {"half", "reset"} : Stop(e))
        \/ Probe \/ Server \/ GiveUp \/ AnswerProbe
Spec == Init /\ [][Next]_vars /\ WF_vars(Server) /\ WF_vars(AnswerProbe)
Bounded == n <= Len(sent)
Ends == (end # "") ~> (conn = "closed")
ProbeAnswered == \A k \in 1..MaxProbe : (probes >= k) ~> (answered >= k)
Emit == (Mode # "check" /\ end # "") => PrintT("@@" \o ToJson([toks |-> sent, end |-> end]))
=============================================================================
