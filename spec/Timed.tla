------------------------------- MODULE Timed -------------------------------
(* One end of a byte stream performs reads and writes that may have a time    *)
(* limit; the peer writes, reads and closes whenever it likes.                *)
(*   - a read with data (or the end of the stream) available ends at once     *)
(*     with it; a write for which there is room goes on at once               *)
(*   - a limited operation that makes no progress for its limit ends with a   *)
(*     time-out, at that moment: neither early nor late                       *)
(*   - whatever ended leaves nothing behind: later operations get every byte  *)
(* Traced = FALSE: TLC explores all orderings (time in ticks) and generates   *)
(* programs.  Traced = TRUE: TLC decides whether recorded runs (time in ms)   *)
(* are behaviours; effects of the peer take place anywhere between the        *)
(* recorded begin and end of its call, and reports may be up to T.late late.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, TimedData
CONSTANTS Traced, MaxOps, MaxActs, MaxT, Lims, Keep
VARIABLES t, i, now,
          op,                 \* current operation: k "none" | "recv" | "send"
          inbox, arr,         \* bytes to read; when the oldest arrived (at the latest)
          shut, shutT,        \* the peer has closed
          room, full, pr, prU,\* the write queue has room; bytes may exceed it; last progress of the write (earliest, latest)
          act,                \* what the peer is doing: [a, n, pending]
          writ, cons,         \* bytes written by the peer / read by us
          sends, nops, nacts, lastEnd, fin, prog, peer
vars == <<t, i, now, op, inbox, arr, shut, shutT, room, full, pr, prU, act, writ, cons, sends, nops, nacts, lastEnd, fin, prog, peer>>
T == Traces[t]
Idle == [k |-> "none", lim |-> 0, n |-> 0, st |-> 0]
NoAct == [a |-> "none", n |-> 0, p |-> FALSE]
Late == IF Traced THEN T.late ELSE 0
Slack == IF Traced THEN 5 ELSE 0
Init == /\ t \in (IF Traced THEN 1..Len(Traces) ELSE {0})
        /\ i = 1 /\ now = 0 /\ op = Idle /\ inbox = 0 /\ arr = 0 /\ shut = FALSE /\ shutT = 0 /\ room = TRUE /\ full = FALSE /\ pr = 0 /\ prU = 0
        /\ act = NoAct /\ writ = 0 /\ cons = 0 /\ sends = <<>> /\ nops = 0 /\ nacts = 0 /\ lastEnd = 0 /\ fin = FALSE /\ prog = <<>> /\ peer = <<>>
Ev == T.evs[i]
HasEv(e) == Traced /\ i <= Len(T.evs) /\ Ev.e = e
\* upper bound of the moment of an effect that takes place now
NextT == IF Traced /\ i <= Len(T.evs) THEN Ev.t ELSE now
Max(a, b) == IF a > b THEN a ELSE b
Step(e) == IF Traced THEN HasEv(e) /\ i' = i + 1 /\ now' = Ev.t /\ UNCHANGED t ELSE UNCHANGED <<t, i, now>>
Big == 100000
\* --------------------------------------------------------------- time (model)
Due == op.lim > 0 /\ now >= (IF op.k = "send" THEN pr ELSE op.st) + op.lim
Urgent == \/ op.k = "recv" /\ (inbox > 0 \/ shut)
          \/ op.k = "send" /\ (room \/ shut)
          \/ op.k # "none" /\ Due
          \/ act.p
Tick == /\ ~Traced /\ now < MaxT /\ ~Urgent /\ now' = now + 1
        /\ UNCHANGED <<t, i, op, inbox, arr, shut, shutT, room, full, pr, prU, act, writ, cons, sends, nops, nacts, lastEnd, fin, prog, peer>>
\* ---------------------------------------------------------------- operations
Start(k, lim, n, at) ==
    /\ op.k = "none" /\ ~fin
    /\ op' = [k |-> k, lim |-> lim, n |-> n, st |-> at]
    /\ pr' = at /\ prU' = at
    /\ full' = (full \/ (k = "send" /\ n > Big))
    /\ room' \in (IF k # "send" THEN {room} ELSE IF n > Big THEN {FALSE} ELSE IF full THEN {TRUE, FALSE} ELSE {TRUE})
    /\ nops' = nops + 1
    /\ UNCHANGED <<inbox, arr, shut, shutT, act, writ, cons, sends, nacts, lastEnd, fin, peer>>
StartM == /\ ~Traced /\ nops < MaxOps /\ Step("start")
          /\ \E k \in {"recv", "send"}, lim \in Lims, n \in {1, 2} :
                /\ (k = "send" /\ lim = 0) => n = 1
                /\ LET m == IF k = "send" THEN (IF n = 1 THEN 1000 ELSE 1000000) ELSE n IN
                   Start(k, lim, m, now) /\ prog' = (IF Keep THEN Append(prog, [k |-> k, lim |-> lim, n |-> m, at |-> now]) ELSE prog)
StartT == HasEv("start") /\ Step("start") /\ Start(Ev.k, Ev.lim, Ev.n, Ev.t) /\ UNCHANGED prog
End(r, n) ==
    /\ op' = Idle
    /\ sends' = (IF op.k = "send" THEN Append(sends, [n |-> op.n, r |-> r]) ELSE sends)
    /\ cons' = cons + n /\ inbox' = inbox - n
    /\ lastEnd' = (IF Traced THEN Ev.t ELSE now)
    /\ arr' = (IF Traced THEN Ev.t ELSE now)   \* what is left may be delivered from now on
    /\ UNCHANGED <<shut, shutT, room, full, pr, prU, act, writ, nops, nacts, fin, prog, peer>>
EndT == IF Traced THEN Ev.t ELSE now
Got(r, n) == Traced => (Ev.r = r /\ Ev.n = n)
Fires(from, fromU) == /\ op.lim > 0
                      /\ EndT >= from + op.lim - (IF Traced THEN 1 ELSE 0)
                      /\ EndT <= fromU + op.lim + Late
RecvData == \E n \in (IF HasEv("end") THEN {Ev.n} ELSE 1..2) :
            /\ op.k = "recv" /\ n >= 1 /\ n <= inbox /\ n <= op.n
            /\ Step("end") /\ Got("data", n)
            /\ EndT <= Max(op.st, arr) + Late
            /\ (op.lim > 0 => EndT <= op.st + op.lim + Late)
            /\ End("data", n)
RecvEof == /\ op.k = "recv" /\ shut /\ inbox = 0 /\ Step("end")
           /\ (Got("eof", 0) \/ (sends # <<>> /\ Got("err", 0)))
           /\ EndT <= Max(op.st, Max(arr, shutT)) + Late /\ End("eof", 0)
RecvTimeout == /\ op.k = "recv" /\ Step("end") /\ Got("timeout", 0) /\ Fires(op.st, op.st)
               /\ (inbox = 0 \/ arr >= op.st + op.lim - Slack)
               /\ (~shut \/ shutT >= op.st + op.lim - Slack)
               /\ End("timeout", 0)
\* when the peer closes with unread data the stream may break at once
RecvErr == /\ op.k = "recv" /\ shut /\ sends # <<>> /\ Step("end") /\ Traced /\ Got("err", 0) /\ End("err", 0)
SendDone == /\ op.k = "send" /\ room /\ Step("end") /\ Got("done", 0)
            /\ (~shut \/ op.st <= shutT)
            /\ EndT <= prU + Late /\ End("done", 0)
SendErr == /\ op.k = "send" /\ shut /\ Step("end") /\ Got("exc", 0) /\ EndT <= Max(op.st, shutT) + Late /\ End("err", 0)
SendTimeout == /\ op.k = "send" /\ ~room /\ Step("end") /\ Got("exc", 0) /\ Fires(pr, prU)
               /\ (~shut \/ shutT >= pr + op.lim - Slack) /\ End("timeout", 0)
\* ----------------------------------------------------------------------- peer
Begin(a, n) == /\ act.a = "none" /\ ~fin /\ act' = [a |-> a, n |-> n, p |-> TRUE]
               /\ UNCHANGED <<op, inbox, arr, shut, shutT, room, full, pr, prU, writ, cons, sends, nops, lastEnd, fin, prog>>
BeginM == /\ ~Traced /\ nacts < MaxActs /\ ~shut /\ UNCHANGED <<t, i, now>>
          /\ \E a \in {"write", "drain", "close"}, n \in {1, 2} :
                /\ (a # "write" => n = 1)
                /\ (a = "drain" => full)
                /\ Begin(a, n) /\ nacts' = nacts + 1 /\ peer' = (IF Keep THEN Append(peer, [a |-> a, n |-> n, at |-> now]) ELSE peer)
BeginT == HasEv("begin") /\ Step("begin") /\ Begin(Ev.k, Ev.n) /\ UNCHANGED <<nacts, peer>>
Effect == /\ act.p /\ UNCHANGED <<t, i, now, op, cons, sends, nops, nacts, lastEnd, fin, prog, peer>>
          /\ act' = (IF Traced THEN [act EXCEPT !.p = FALSE] ELSE NoAct)
          /\ CASE act.a = "write" -> /\ inbox' = inbox + act.n /\ writ' = writ + act.n
                                     /\ arr' = (IF inbox = 0 THEN NextT ELSE arr)
                                     /\ UNCHANGED <<shut, shutT, room, full, pr, prU>>
               [] act.a = "close" -> shut' = TRUE /\ shutT' = NextT /\ UNCHANGED <<inbox, arr, room, full, pr, prU, writ>>
               [] act.a = "drain" -> /\ room' \in (IF op.k = "send" /\ full THEN {TRUE, FALSE} ELSE {TRUE})
                                     /\ full' = (full /\ op.k = "send")
                                     /\ pr' = now /\ prU' = NextT
                                     /\ UNCHANGED <<inbox, arr, shut, shutT, writ>>
Done == /\ HasEv("endact") /\ ~act.p /\ act.a # "none" /\ Step("endact") /\ act' = NoAct
        /\ UNCHANGED <<op, inbox, arr, shut, shutT, room, full, pr, prU, writ, cons, sends, nops, nacts, lastEnd, fin, prog, peer>>
\* -------------------------------------------------------------------- the end
GotAll(g) == Len(g) = Len(sends) /\ \A j \in DOMAIN g : IF sends[j].r = "done" THEN g[j] = sends[j].n ELSE g[j] <= sends[j].n
Fin == /\ HasEv("fin") /\ Step("fin") /\ op.k = "none" /\ act.a = "none" /\ ~fin /\ fin' = TRUE
       /\ Ev.t <= lastEnd + Late                       \* the loop has nothing left to wait for
       /\ Ev.n = inbox /\ GotAll(T.got)
       /\ UNCHANGED <<op, inbox, arr, shut, shutT, room, full, pr, prU, act, writ, cons, sends, nops, nacts, lastEnd, prog, peer>>
FinM == /\ ~Traced /\ op.k = "none" /\ ~act.p /\ ~fin /\ nops >= 1 /\ fin' = TRUE
        /\ UNCHANGED <<t, i, now, op, inbox, arr, shut, shutT, room, full, pr, prU, act, writ, cons, sends, nops, nacts, lastEnd, prog, peer>>
Next == Tick \/ StartM \/ StartT \/ RecvData \/ RecvEof \/ RecvTimeout \/ RecvErr \/ SendDone \/ SendErr \/ SendTimeout
        \/ BeginM \/ BeginT \/ Effect \/ Done \/ Fin \/ FinM
Spec == Init /\ [][Next]_vars /\ WF_vars(Tick) /\ WF_vars(Effect) /\ WF_vars(RecvData) /\ WF_vars(RecvEof) /\ WF_vars(RecvTimeout)
             /\ WF_vars(SendDone) /\ WF_vars(SendErr) /\ WF_vars(SendTimeout)
\* ----------------------------------------------------------------- properties
Conserved == writ = cons + inbox
\* a limited operation is never pending past its limit (model: exact; progress of a write restarts it)
InTime == (~Traced /\ op.k # "none" /\ op.lim > 0) => now <= (IF op.k = "send" THEN pr ELSE op.st) + op.lim
\* never both data at hand and time passing
Prompt == [][(~Traced /\ now' > now /\ op.k = "recv") => (inbox = 0 /\ ~shut)]_vars
\* limited operations end, unless the clock of the model has run out
LimitedEnds == [](op.k # "none" /\ op.lim > 0 => <>(op.k = "none" \/ now = MaxT))
Accepted == (Traced /\ fin /\ i > Len(T.evs)) => PrintT("@@" \o ToJson(t))
Emit == (~Traced /\ fin /\ Keep) => PrintT("@@" \o ToJson([ops |-> prog, peer |-> peer]))
=============================================================================
