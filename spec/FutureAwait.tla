----------------------------- MODULE FutureAwait -----------------------------
(* Coroutines that await pool tasks.  The pool finishes a task on a thread of    *)
(* its own and posts the continuation; the event loop, which may be blocked on   *)
(* I/O and timers, is woken and resumes the coroutine itself.                    *)
(* prog.co: coroutines, each a sequence of awaits [i, o, limit]: task i with     *)
(* outcome kind o ("v" value i, "x" nothing, "e" exception i); limit > 0: it is  *)
(* given up when a timer is quicker.                                             *)
(* prog.io: something else of the loop is waiting for I/O meanwhile.             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Mode, Progs, Late      \* Late: the loop looks for outstanding tasks after it ran its timers
VARIABLES prog, at, ph, ready, cnt, efd, armed, lpc, todo, saw, io, id, pos
vars == <<prog, at, ph, ready, cnt, efd, armed, lpc, todo, saw, io, id, pos>>
Co == 1..Len(prog.co)
Ids == UNION {{prog.co[c][k].i : k \in 1..Len(prog.co[c])} : c \in Co}
Aw(i) == LET c == CHOOSE c \in Co : \E k \in 1..Len(prog.co[c]) : prog.co[c][k].i = i IN prog.co[c][CHOOSE k \in 1..Len(prog.co[c]) : prog.co[c][k].i = i]
CoOf(i) == CHOOSE c \in Co : \E k \in 1..Len(prog.co[c]) : prog.co[c][k].i = i
Out(i) == CASE Aw(i).o = "v" -> <<0, i>> [] Aw(i).o = "x" -> <<0, 0>> [] OTHER -> <<1, i>>
More(c) == at[c] < Len(prog.co[c])
(* coroutine c goes on: its next await (it submits the task) or its end *)
Nxt(c) == prog.co[c][at[c] + 1].i
GoOn(c, p, n) == IF More(c) THEN ph' = [p EXCEPT ![Nxt(c)] = "pend"] /\ cnt' = n + 1 /\ at' = [at EXCEPT ![c] = @ + 1]
                 ELSE ph' = p /\ cnt' = n /\ at' = [at EXCEPT ![c] = Len(prog.co[c]) + 1]
U1 == UNCHANGED <<prog, id, pos>>
(* the pool *)
Begin(i) == ph[i] = "pend" /\ ph' = [ph EXCEPT ![i] = "run"] /\ UNCHANGED <<at, ready, cnt, efd, armed, lpc, todo, saw, io>>
BeginLost(i) == ph[i] = "lost" /\ ph' = [ph EXCEPT ![i] = "lostrun"] /\ UNCHANGED <<at, ready, cnt, efd, armed, lpc, todo, saw, io>>
Post(i) == /\ ph[i] \in {"run", "lostrun"} /\ ph' = [ph EXCEPT ![i] = IF @ = "run" THEN "posted" ELSE "lostposted"]
           /\ ready' = ready \cup {i} /\ efd' = efd + 1 /\ UNCHANGED <<at, cnt, armed, lpc, todo, saw, io>>
(* the loop *)
Resume(i) == IF ph[i] = "posted" THEN GoOn(CoOf(i), [ph EXCEPT ![i] = "resumed"], cnt) ELSE ph' = [ph EXCEPT ![i] = "gone"] /\ UNCHANGED <<cnt, at>>
GiveUp(i) == /\ Aw(i).limit > 0 /\ ph[i] \in {"pend", "run", "posted"}
             /\ GoOn(CoOf(i), [ph EXCEPT ![i] = CASE @ = "pend" -> "lost" [] @ = "run" -> "lostrun" [] OTHER -> "lostposted"], cnt)
Start(c) == at[c] = 0 /\ GoOn(c, ph, cnt)
Timers == \E i \in Ids : GiveUp(i)
Limits == {i \in Ids : Aw(i).limit > 0 /\ ph[i] \in {"pend", "run", "posted"}}
Loop ==
  \/ lpc = "ready" /\ todo' = ready /\ ready' = {} /\ lpc' = "resume" /\ UNCHANGED <<at, ph, cnt, efd, armed, saw, io>>
  \/ lpc = "resume" /\ UNCHANGED <<ready, efd, armed, io>>
     /\ IF todo = {} THEN lpc' = "timers" /\ saw' = (cnt > 0) /\ UNCHANGED <<at, ph, cnt, todo>>
        ELSE \E i \in todo : todo' = todo \ {i} /\ UNCHANGED <<lpc, saw>>
             /\ IF ph[i] = "posted" THEN GoOn(CoOf(i), [ph EXCEPT ![i] = "resumed"], cnt - 1) ELSE ph' = [ph EXCEPT ![i] = "gone"] /\ cnt' = cnt - 1 /\ UNCHANGED at
  \/ lpc = "timers" /\ (\E c \in Co : Start(c)) /\ UNCHANGED <<ready, efd, armed, lpc, todo, saw, io>>
  \/ lpc = "timers" /\ (\A c \in Co : at[c] # 0) /\ Timers /\ UNCHANGED <<ready, efd, armed, lpc, todo, saw, io>>
  \/ lpc = "timers" /\ (\A c \in Co : at[c] # 0) /\ lpc' = "listen" /\ UNCHANGED <<at, ph, ready, cnt, efd, armed, todo, saw, io>>
  \/ lpc = "listen" /\ armed' = (armed \/ IF Late THEN cnt > 0 ELSE saw) /\ lpc' = "block" /\ UNCHANGED <<at, ph, ready, cnt, efd, todo, saw, io>>
  \/ lpc = "block" /\ UNCHANGED <<at, ph, ready, cnt, todo, saw>>
     /\ \/ armed /\ efd > 0 /\ armed' = FALSE /\ efd' = 0 /\ lpc' = "ready" /\ UNCHANGED io
        \/ io /\ (\A c \in Co : at[c] > Len(prog.co[c])) /\ io' = FALSE /\ lpc' = "ready" /\ UNCHANGED <<armed, efd>>     \* the other I/O is only quick enough when nobody needs it
        \/ Limits # {} /\ lpc' = "ready" /\ UNCHANGED <<armed, efd, io>>
        \/ ~armed /\ ~io /\ Limits = {} /\ (cnt = 0 \/ ready # {}) /\ lpc' = (IF cnt = 0 THEN "end" ELSE "ready") /\ UNCHANGED <<armed, efd, io>>
Fresh(p) == /\ prog = p /\ at = [c \in 1..Len(p.co) |-> 0] /\ ready = {} /\ cnt = 0 /\ efd = 0 /\ armed = FALSE /\ lpc = "ready" /\ todo = {} /\ saw = FALSE /\ io = p.io
            /\ ph = [i \in UNION {{p.co[c][k].i : k \in 1..Len(p.co[c])} : c \in 1..Len(p.co)} |-> "no"]
MInit == \E p \in Progs : Fresh(p) /\ id = 0 /\ pos = 1
Pool == \E i \in Ids : Begin(i) \/ BeginLost(i) \/ Post(i)
MNext == (Pool \/ Loop) /\ U1
MSpec == MInit /\ [][MNext]_vars /\ WF_vars(Pool /\ U1) /\ SF_vars(Loop /\ U1)
W(i, l) == [i |-> i, o |-> "v", limit |-> l]
Small == {[co |-> c, io |-> b] : b \in BOOLEAN, c \in {<<<<W(1, 0)>>>>, <<<<W(1, 0), W(2, 0)>>, <<W(3, 0)>>>>, <<<<W(1, 5), W(2, 0)>>, <<W(3, 0)>>>>, <<<<W(1, 0), W(2, 5)>>, <<W(3, 5), W(4, 0)>>>>}}
Owed == Cardinality({i \in Ids : ph[i] \in {"pend", "run", "posted", "lost", "lostrun", "lostposted"}})
Inv == /\ cnt = Owed
       /\ lpc = "end" => \A i \in Ids : ph[i] \in {"resumed", "gone"}
       /\ \A i \in Ids : ph[i] = "posted" => i \in ready \cup todo
Ends == <>(lpc = "end")
(* ------------------------------------------------------------- recorded traces *)
Traces == IF Mode # "model" THEN JsonDeserialize("traces.json") ELSE <<>>
Log == Traces[id].log
Rest == UNCHANGED <<ready, cnt, efd, armed, todo, saw, io>>
Seen == /\ pos <= Len(Log) /\ pos' = pos + 1
        /\ LET e == Log[pos] IN
           CASE e.e = "sub" -> /\ lpc = "ready" /\ at[CoOf(e.i)] < Len(prog.co[CoOf(e.i)]) /\ Nxt(CoOf(e.i)) = e.i
                               /\ (at[CoOf(e.i)] > 0 => ph[prog.co[CoOf(e.i)][at[CoOf(e.i)]].i] \notin {"pend", "run", "posted"})
                               /\ ph' = [ph EXCEPT ![e.i] = "pend"] /\ at' = [at EXCEPT ![CoOf(e.i)] = @ + 1] /\ UNCHANGED lpc
             [] e.e = "beg" -> ph[e.i] \in {"pend", "lost"} /\ ph' = [ph EXCEPT ![e.i] = IF @ = "pend" THEN "run" ELSE "lostrun"] /\ UNCHANGED <<at, lpc>>
             [] e.e = "fin" -> ph[e.i] \in {"run", "lostrun"} /\ ph' = [ph EXCEPT ![e.i] = IF @ = "run" THEN "posted" ELSE "gone"] /\ UNCHANGED <<at, lpc>>
             [] e.e = "res" -> ph[e.i] = "posted" /\ e.r = Out(e.i) /\ e.w = 1 /\ ph' = [ph EXCEPT ![e.i] = "resumed"] /\ UNCHANGED <<at, lpc>>
             [] e.e = "abd" -> Aw(e.i).limit > 0 /\ e.w = 1 /\ ph[e.i] \in {"pend", "run", "posted"} /\ ph' = [ph EXCEPT ![e.i] = CASE @ = "pend" -> "lost" [] @ = "run" -> "lostrun" [] OTHER -> "gone"] /\ UNCHANGED <<at, lpc>>
             [] OTHER -> (\A i \in Ids : ph[i] \in {"resumed", "gone"}) /\ lpc' = "end" /\ UNCHANGED <<at, ph>>
TNext == Seen /\ Rest /\ UNCHANGED <<prog, id>>
TInit == \E n \in 1..Len(Traces) : id = n /\ pos = 1 /\ Fresh(Traces[n].prog) /\ TLCSet(n, 0) /\ TLCSet(100000 + n, 0)
Accepted == pos = Len(Log) + 1 => TLCSet(id, 1)
Far == pos > TLCGet(100000 + id) => TLCSet(100000 + id, pos)
Report == \A n \in 1..Len(Traces) : TLCGet(n) = 1 \/ PrintT("@@" \o ToJson([bad |-> n, at |-> TLCGet(100000 + n)]))
=============================================================================
