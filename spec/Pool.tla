--------------------------------- MODULE Pool ---------------------------------
(* The contract of the thread pool and of the futures of its tasks.              *)
(* A task is called for (addTask or a continuation), queued, taken by a thread,  *)
(* runs once and has an outcome; a continuation runs with the outcome of the     *)
(* task it continues; whoever waits goes on only when the outcome is there.      *)
(* Threads stay within the bounds; after the destructor nothing runs.            *)
(* Task i: [p: continued task or 0, o: kind of outcome]                          *)
(*   o: "v" value i, "x" no value, "e" exception i, "t" its input passed on,     *)
(*      "f" (a continuation that owns what it does with the outcome)             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Mode, Progs
VARIABLES prog, ph, acc, queue, took, by, threads, grown, life, id, pos
vars == <<prog, ph, acc, queue, took, by, threads, grown, life, id, pos>>
Ids == 1..Len(prog.t)
RECURSIVE Out(_)
Out(i) == LET o == prog.t[i].o IN CASE o \in {"v", "w"} -> <<0, i>> [] o \in {"x", "f"} -> <<0, 0>> [] o \in {"e", "u"} -> <<1, i>> [] OTHER -> Out(prog.t[i].p)
Busy == {i \in Ids : ph[i] \in {"taken", "run"}}
Call(i) == /\ life # "gone" /\ ph[i] = "no" /\ ph' = [ph EXCEPT ![i] = "called"] /\ UNCHANGED <<acc, queue, took, by, threads, grown, life>>
Enqueue(i) == /\ ph[i] = "called" /\ ph' = [ph EXCEPT ![i] = "queued"] /\ queue' = Append(queue, i) /\ UNCHANGED <<acc, took, by, threads, grown, life>>
Accept(i) == /\ ph[i] # "called" /\ ph[i] # "no" /\ i \notin acc /\ acc' = acc \cup {i} /\ UNCHANGED <<ph, queue, took, by, threads, grown, life>>
(* an idle thread takes the oldest task *)
Take == /\ queue # <<>> /\ Cardinality(Busy) < threads /\ life # "gone"
        /\ ph' = [ph EXCEPT ![queue[1]] = "taken"] /\ queue' = Tail(queue) /\ took' = Append(took, queue[1]) /\ UNCHANGED <<acc, by, threads, grown, life>>
Begin(i, w, in) == /\ ph[i] = "taken" /\ \A j \in Ids : ph[j] = "run" => by[j] # w
                   /\ IF prog.t[i].p = 0 THEN in = <<0, 0>> ELSE ph[prog.t[i].p] = "done" /\ in = Out(prog.t[i].p)
                   /\ ph' = [ph EXCEPT ![i] = "run"] /\ by' = [by EXCEPT ![i] = w] /\ UNCHANGED <<acc, queue, took, threads, grown, life>>
End(i, w) == /\ ph[i] = "run" /\ by[i] = w /\ ph' = [ph EXCEPT ![i] = "done"] /\ UNCHANGED <<acc, queue, took, by, threads, grown, life>>
Got(i, r) == ph[i] = "done" /\ r = Out(i) /\ UNCHANGED <<ph, acc, queue, took, by, threads, grown, life>>
(* threads come and go one at a time, between the bounds once they were reached *)
Threads(n) == /\ n \in {threads - 1, threads + 1} /\ n <= prog.max /\ n >= 0
              /\ (life = "up" /\ n < threads) => (grown /\ n >= prog.min)
              /\ threads' = n /\ grown' = (grown \/ n >= prog.min) /\ UNCHANGED <<ph, acc, queue, took, by, life>>
(* everybody waits: then nothing is left to do, and the threads are there *)
Idle == /\ life = "up" /\ grown /\ threads >= prog.min /\ threads <= prog.max /\ \A i \in Ids : ph[i] \in {"no", "done"} /\ UNCHANGED <<ph, acc, queue, took, by, threads, grown, life>>
Destroy == life = "up" /\ life' = "closing" /\ UNCHANGED <<ph, acc, queue, took, by, threads, grown>>
Gone == /\ life = "closing" /\ threads = 0 /\ \A i \in Ids : ph[i] # "run" /\ life' = "gone" /\ UNCHANGED <<ph, acc, queue, took, by, threads, grown>>
Fresh(p) == /\ prog = p /\ ph = [i \in 1..Len(p.t) |-> "no"] /\ acc = {} /\ queue = <<>> /\ took = <<>> /\ by = [i \in 1..Len(p.t) |-> 0]
            /\ threads = 0 /\ grown = (p.min = 0) /\ life = "up"
(* -------------------------------------------------------------- exploration *)
MNext == /\ \/ \E i \in Ids : (prog.t[i].p # 0 => prog.t[i].p \in acc) /\ Call(i)
            \/ \E i \in Ids : Enqueue(i) \/ Accept(i)
            \/ Take \/ \E i \in Ids, w \in 1..4, r \in {<<0, 0>>} \cup {Out(j) : j \in Ids} : Begin(i, w, r)
            \/ \E i \in Ids, w \in 1..4 : End(i, w)
            \/ \E n \in 0..prog.max : Threads(n)
            \/ Idle \/ Destroy \/ Gone
         /\ UNCHANGED <<prog, id, pos>>
MInit == \E p \in Progs : Fresh(p) /\ id = 0 /\ pos = 1
MSpec == MInit /\ [][MNext]_vars
K(p, o) == [p |-> p, o |-> o]
Small == {[min |-> a, max |-> b, t |-> t] : a \in {1}, b \in {1, 2}, t \in {<<K(0, "v"), K(0, "x"), K(0, "e")>>, <<K(0, "e"), K(1, "t"), K(2, "f")>>, <<K(0, "v"), K(1, "e")>>}}
Types == ph \in [Ids -> {"no", "called", "queued", "taken", "run", "done"}] /\ threads \in 0..prog.max
Bounded == Cardinality(Busy) <= prog.max
QueueIs == \A i \in Ids : (ph[i] = "queued") <=> (\E k \in 1..Len(queue) : queue[k] = i)
InOrder == \A a, b \in 1..Len(took) : a # b => took[a] # took[b]
After == \A i \in Ids : (prog.t[i].p # 0 /\ ph[i] \in {"run", "done"}) => ph[prog.t[i].p] = "done"
Inv == Types /\ Bounded /\ QueueIs /\ InOrder /\ After
OneByOne == [][\A i \in Ids : /\ (ph[i] = "done" => ph'[i] = "done")
                              /\ (ph'[i] = "run" /\ ph[i] # "run" => ph[i] = "taken")]_vars
(* ------------------------------------------------------------- recorded traces *)
Traces == IF Mode # "model" THEN JsonDeserialize("traces.json") ELSE <<>>
Log == Traces[id].log
(* Steps the trace does not show are done when they are needed: a task is taken when it or one behind it begins;    *)
(* tasks are enqueued in the order at.bp, a guess that is right nearly always.  A trace that is rejected that way is *)
(* searched again with every order (Mode "search") and only then reported.                                           *)
E0 == Log[pos]
Late == pos <= Len(Log) /\ E0.e \in {"acc", "beg"}
Called == {i \in Ids : ph[i] = "called"}
NextIn == CHOOSE i \in Called : \A j \in Called : Traces[id].bp[i] <= Traces[id].bp[j]
MustPut == Late /\ ph[E0.i] = "called"
MustTake == Late /\ E0.e = "beg" /\ ph[E0.i] = "queued"
Hidden == IF Mode = "search" THEN (\E i \in Ids : Enqueue(i)) \/ (MustTake /\ Take) ELSE IF MustPut THEN Enqueue(NextIn) ELSE MustTake /\ Take
Seen == /\ pos <= Len(Log) /\ ~MustPut /\ ~MustTake /\ pos' = pos + 1
        /\ LET e == Log[pos] IN
           CASE e.e = "call" -> Call(e.i)
             [] e.e = "acc" -> Accept(e.i)
             [] e.e = "beg" -> Begin(e.i, e.w, e.r)
             [] e.e = "end" -> End(e.i, e.w)
             [] e.e = "got" -> Got(e.i, e.r)
             [] e.e = "wtd" -> ph[e.i] = "done" /\ e.r[1] = Out(e.i)[1] /\ (e.r[1] = 1 => e.r = Out(e.i)) /\ UNCHANGED <<ph, acc, queue, took, by, threads, grown, life>>
             [] e.e = "thr" -> Threads(e.i)
             [] e.e = "idle" -> Idle
             [] e.e = "des" -> Destroy
             [] OTHER -> Gone
TNext == ((Hidden /\ pos' = pos) \/ Seen) /\ UNCHANGED <<prog, id>>
TInit == \E n \in 1..Len(Traces) : id = n /\ pos = 1 /\ Fresh(Traces[n].prog) /\ TLCSet(n, 0) /\ TLCSet(100000 + n, 0)
Accepted == pos = Len(Log) + 1 => TLCSet(id, 1)
Far == pos > TLCGet(100000 + id) => TLCSet(100000 + id, pos)
Report == \A n \in 1..Len(Traces) : TLCGet(n) = 1 \/ PrintT("@@" \o ToJson([bad |-> n, at |-> TLCGet(100000 + n)]))
=============================================================================
