---------------------------- MODULE WsHandshake ----------------------------
(* The opening handshake from either side.  "accept": a client's request with  *)
(* any combination of the relevant headers, possibly followed at once by        *)
(* frames; the server upgrades exactly when the request is a valid upgrade.     *)
(* "connect": the server's answer in any combination; the client goes on        *)
(* exactly when the answer is a valid acceptance of its own key.  Frames that   *)
(* arrive with the handshake are the first ones of the connection.              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Early, Lates
Absent == "-"
Req == [origin : {"http://a.test", Absent}, upgrade : {"websocket", "WebSocket", "h2c", Absent},
        connection : {"Upgrade", "keep-alive, Upgrade", "upgrade", "close", Absent}, key : {"dGhlIHNhbXBsZSBub25jZQ==", "AAAAAAAAAAAAAAAAAAAAAA==", Absent}]
Rsp == [status : {"101", "200", "404"}, upgrade : {"websocket", "WebSocket", "h2c", Absent},
        connection : {"Upgrade", "keep-alive, Upgrade", "upgrade", "close", Absent}, accept : {"right", "wrong", Absent}]
UpOk(u) == u \in {"websocket", "WebSocket"}
ConOk(c) == c \in {"Upgrade", "keep-alive, Upgrade", "upgrade"}
VARIABLES side, msg,      \* the peer's handshake message
          early, late,    \* number of frames behind it in the same write / after it
          wire, st, got
vars == <<side, msg, early, late, wire, st, got>>
Init == /\ \/ side = "accept" /\ msg \in Req
           \/ side = "connect" /\ msg \in Rsp
        /\ early \in Early /\ late \in Lates /\ wire = <<<<"hs", 0>>>> \o [i \in 1..early |-> <<"f", i>>] /\ st = "wait" /\ got = <<>>
Valid == IF side = "accept" THEN msg.origin # Absent /\ UpOk(msg.upgrade) /\ ConOk(msg.connection) /\ msg.key # Absent
         ELSE msg.status = "101" /\ UpOk(msg.upgrade) /\ ConOk(msg.connection) /\ msg.accept = "right"
Shake == st = "wait" /\ st' = (IF Valid THEN "up" ELSE "refused") /\ wire' = Tail(wire) /\ UNCHANGED <<side, msg, early, late, got>>
\* frames sent once the handshake has been seen to succeed
SendLate == st = "up" /\ Len(got) + Len(wire) < early + late /\ wire' = Append(wire, <<"f", Len(got) + Len(wire) + 1>>) /\ UNCHANGED <<side, msg, early, late, st, got>>
Recv == st = "up" /\ wire # <<>> /\ got' = Append(got, Head(wire)[2]) /\ wire' = Tail(wire) /\ UNCHANGED <<side, msg, early, late, st>>
Next == Shake \/ SendLate \/ Recv
Spec == Init /\ [][Next]_vars /\ WF_vars(Shake) /\ WF_vars(Recv) /\ WF_vars(SendLate)
UpIffValid == (st = "up" => Valid) /\ (st = "refused" => ~Valid)
Order == got = [i \in 1..Len(got) |-> i]
NothingLost == <>[](st = "up" => Len(got) = early + late)
Emit == st = "wait" => PrintT("@@" \o ToJson([side |-> side, msg |-> msg, early |-> early, late |-> late, up |-> Valid]))
=============================================================================
