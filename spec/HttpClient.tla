----------------------------- MODULE HttpClient -----------------------------
(* One HTTP client, one server.  The server may answer a request in every way *)
(* below; the client performs calls, explicit connects and closes.  With      *)
(* Traced = FALSE, TLC explores the system and generates programs; with       *)
(* Traced = TRUE it decides whether recorded runs (operations, their results, *)
(* accepted connections, requests received and how they were answered) are    *)
(* behaviours of this specification.                                          *)
(* There are two servers, hosts 0 and 1; callB and connectB are for host 1.   *)
(* Answers:  ok       a complete response, the connection stays               *)
(*           interim  1xx responses, then ok                                  *)
(*           okc/oks  a complete response, then the server closes (announced  *)
(*                    by "Connection: close" / silently)                      *)
(*           drop     closes without a response      cut   closes within it   *)
(*           junk     something that is no response, then closes              *)
(*           bad      the same, but the connection stays                      *)
(*           slow     answers after the client's time limit                   *)
(*           half     sends part of the response and stalls                   *)
(*           early    (at accept) closes the connection at once               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, HttpClientData
CONSTANTS Traced, MaxOps, Keep, Ops
VARIABLES t, pc, ev,      \* trace, current operation, events consumed
          ph,             \* what the client is doing
          att,            \* attempt of the current call (1, 2)
          conn,           \* the client's connection: [s |-> "none" | "live" | "dead", q |-> answers on their way, to |-> host]
          up, auto,
          to,             \* host of the current call
          tx, got,        \* transmissions of the current call; answer read
          prog, hist, outs
vars == <<t, pc, ev, ph, att, conn, up, auto, to, tx, got, prog, hist, outs>>
Good == {"ok", "okc", "oks", "interim"}
Failing == {"drop", "cut", "junk", "bad", "slow", "half"}
Closing == {"okc", "oks", "drop", "cut", "junk"}
None == [s |-> "none", q |-> <<>>, to |-> 0]
Host(o) == IF o \in {"callB", "connectB"} THEN 1 ELSE 0
Fresh(h) == [s |-> "live", q |-> <<>>, to |-> h]
Broke(h) == [s |-> "dead", q |-> <<>>, to |-> h]
\* only host 0 goes down
Reach(h) == h = 1 \/ up
T == Traces[t]
Init == /\ t \in (IF Traced THEN 1..Len(Traces) ELSE {0})
        /\ pc = 1 /\ ev = 0 /\ ph = "idle" /\ att = 0 /\ conn = None /\ up = TRUE /\ auto = TRUE /\ to = 0 /\ tx = 0 /\ got = 0
        /\ prog = <<>> /\ hist = <<>> /\ outs = <<>>
\* ------------------------------------------------------------ observation
E(k, i, a, h) == [k |-> k, i |-> i, a |-> a, h |-> h]
See(e) == IF Traced THEN ev < Len(T.evs) /\ T.evs[ev + 1] = e /\ ev' = ev + 1 /\ UNCHANGED hist
          ELSE UNCHANGED ev /\ hist' = (IF Keep THEN Append(hist, e) ELSE hist)
Quiet == UNCHANGED <<ev, hist>>
Result(r) == /\ IF Traced THEN T.outs[pc] = r /\ UNCHANGED outs ELSE outs' = (IF Keep THEN Append(outs, r) ELSE outs)
             /\ pc' = pc + 1 /\ ph' = "idle" /\ att' = 0 /\ tx' = 0 /\ got' = 0 /\ UNCHANGED <<t, prog, to>>
More == IF Traced THEN pc <= Len(T.ops) ELSE pc <= MaxOps
Begin(o) == /\ ph = "idle" /\ More
            /\ IF Traced THEN T.ops[pc] = o /\ UNCHANGED prog ELSE o \in Ops /\ prog' = (IF Keep THEN Append(prog, o) ELSE prog)
Stay == UNCHANGED <<t, pc, outs>>
Op == IF Traced THEN T.ops[pc] ELSE IF Keep THEN prog[Len(prog)] ELSE "call"
\* ------------------------------------------------------- other operations
Env(o, r) == /\ ph = "idle" /\ More
             /\ IF Traced THEN T.ops[pc] = o /\ T.outs[pc] = r /\ UNCHANGED <<prog, outs>>
                ELSE o \in Ops /\ prog' = (IF Keep THEN Append(prog, o) ELSE prog) /\ outs' = (IF Keep THEN Append(outs, r) ELSE outs)
             /\ pc' = pc + 1 /\ ph' = "idle" /\ att' = 0 /\ tx' = 0 /\ got' = 0 /\ UNCHANGED <<t, to>>
Down == up /\ Env("down", "-") /\ up' = FALSE /\ conn' = (IF conn.s = "none" \/ conn.to = 1 THEN conn ELSE Broke(0)) /\ UNCHANGED auto /\ Quiet
Up == ~up /\ Env("up", "-") /\ up' = TRUE /\ UNCHANGED <<conn, auto>> /\ Quiet
Auto == Env("auto", "-") /\ auto' = TRUE /\ UNCHANGED <<conn, up>> /\ Quiet
NoAuto == Env("noauto", "-") /\ auto' = FALSE /\ UNCHANGED <<conn, up>> /\ Quiet
Close == Env("close", "-") /\ conn' = None /\ UNCHANGED <<up, auto>> /\ Quiet
ConnectOk == \E o \in {"connect", "connectB"} :
             /\ Reach(Host(o)) /\ Env(o, "ok") /\ UNCHANGED <<up, auto>>
             /\ \/ See(E("acc", 0, "", Host(o))) /\ conn' = Fresh(Host(o))
                \/ See(E("early", 0, "", Host(o))) /\ conn' = Broke(Host(o))
ConnectErr == ~up /\ Env("connect", "err") /\ conn' = None /\ UNCHANGED <<up, auto>> /\ Quiet
\* -------------------------------------------------------------- requests
\* a connection to another host does not serve the call
Call == \E o \in {"call", "callc", "callB"} :
        /\ Begin(o) /\ ph' = "try" /\ att' = 1 /\ tx' = 0 /\ got' = 0 /\ to' = Host(o)
        /\ conn' = (IF conn.to # Host(o) THEN None ELSE conn) /\ UNCHANGED <<up, auto>> /\ Stay /\ Quiet
\* a connection is established for the attempt
Establish == /\ ph = "try" /\ conn.s = "none" /\ Reach(to)
             /\ \/ See(E("acc", 0, "", to)) /\ conn' = Fresh(to)
                \/ See(E("early", 0, "", to)) /\ conn' = Broke(to)
             /\ UNCHANGED <<ph, att, up, auto, to, tx, got, prog>> /\ Stay
Unreachable == ph = "try" /\ conn.s = "none" /\ ~Reach(to) /\ Result("err") /\ conn' = None /\ UNCHANGED <<up, auto>> /\ Quiet
\* a client may notice that the connection is broken before it sends
Notice == Traced /\ ph = "try" /\ conn.s = "dead" /\ conn' = None /\ UNCHANGED <<ph, att, up, auto, to, tx, got, prog>> /\ Stay /\ Quiet
Broken == ph = "try" /\ conn.s = "dead" /\ ph' = "failed" /\ UNCHANGED <<conn, att, up, auto, to, tx, got, prog>> /\ Stay /\ Quiet
\* the server receives the request and does a
Send == /\ ph = "try" /\ conn.s = "live"
        /\ \E a \in Good \union Failing :
             /\ See(E("req", pc, a, conn.to))
             /\ tx' = tx + 1
             /\ conn' = [to |-> conn.to, s |-> IF a \in Closing THEN "dead" ELSE "live", q |-> IF a \in Good THEN Append(conn.q, pc) ELSE IF a \in {"junk", "bad"} THEN Append(conn.q, 0) ELSE conn.q]
             /\ ph' = "wait"
        /\ UNCHANGED <<att, up, auto, to, got, prog>> /\ Stay
\* the client takes the next answer off the connection, or finds none in time
Receive == /\ ph = "wait" /\ Quiet /\ Stay /\ UNCHANGED <<att, up, auto, to, tx, prog>>
           /\ IF conn.q # <<>> /\ Head(conn.q) # 0
              THEN ph' = "got" /\ got' = Head(conn.q) /\ conn' = [conn EXCEPT !.q = Tail(@)]
              ELSE ph' = "failed" /\ UNCHANGED <<got, conn>>
Return == /\ ph = "got" /\ Result("ok") /\ Quiet /\ UNCHANGED <<up, auto>>
          /\ conn' \in (IF Op = "callc" THEN IF Traced THEN {None, conn} ELSE {None} ELSE {conn})
Retry == ph = "failed" /\ att = 1 /\ auto /\ ph' = "try" /\ att' = 2 /\ conn' = None /\ UNCHANGED <<up, auto, to, tx, got, prog>> /\ Stay /\ Quiet
\* reconnecting does not help against a server that talks nonsense: a client need not
Nonsense == Traced /\ conn.q # <<>> /\ Head(conn.q) = 0
GiveUp == ph = "failed" /\ (att = 2 \/ ~auto \/ Nonsense) /\ Result("err") /\ conn' = None /\ UNCHANGED <<up, auto>> /\ Quiet
Next == Down \/ Up \/ Auto \/ NoAuto \/ Close \/ ConnectOk \/ ConnectErr \/ Call \/ Establish \/ Unreachable \/ Notice \/ Broken \/ Send \/ Receive \/ Return \/ Retry \/ GiveUp
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
\* ------------------------------------------------------------- properties
OwnAnswer == ph = "got" => got = pc /\ conn.to = to
AtMostTwice == tx <= 2 /\ (~auto => tx <= 1)
\* a second transmission only after the first attempt failed
Again == [][ph = "try" /\ tx' > tx /\ tx = 1 => att = 2]_vars
\* a healthy server and a fresh connection: the call succeeds
Usable == [][(ph = "got" => pc' = pc + 1)]_vars
NothingStale == (conn.s # "live" /\ ph = "idle") \/ conn.q = <<>> \/ ph # "idle"
Ends == []<>(ph = "idle" \/ pc > MaxOps)
Emit == (~Traced /\ Keep /\ pc > MaxOps) => PrintT("@@" \o ToJson([ops |-> prog, evs |-> hist, outs |-> outs]))
Accepted == Traced /\ pc > Len(T.ops) /\ ev = Len(T.evs) => PrintT("@@" \o ToString(t))
=============================================================================
