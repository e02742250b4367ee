------------------------------- MODULE PoolImpl -------------------------------
(* How the pool works: one mutex and condition variable, a queue, threads that   *)
(* wait, a manager that adds threads and asks threads to leave, a destructor;    *)
(* every lock, check, wait and notification is a step.  It refines the contract  *)
(* Pool.tla and, if nobody destroys it, runs every task; destroying it ends.     *)
(* Locked = FALSE: the queue and the stop flag are changed without the mutex.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Subs, PerSub, Min, Max, Dyn, Locked, Early, Ticks,
          Meet,     \* task 1 runs until task 2 has begun (at least two threads)
          Lazy      \* notify only when the queue was short (loses wake-ups)
S == 1..Subs
Task(s, k) == (s - 1) * PerSub + k
N == Subs * PerSub
Tids == 1..(Max + 2)
VARIABLES sk, spc,                 \* submitters
          wpc, wtask,              \* threads: "no" (not created), "lock", "check", "wait" (in cond wait), "woken", "run", "exit", "joined"
          q, run, del, dead,       \* queue, isRun, delCnt, leaving threads
          mtx, mpc, ticks, todo,   \* owner of the mutex (0: nobody), manager
          dpc, ph, took, by, acc, grown
vars == <<sk, spc, wpc, wtask, q, run, del, dead, mtx, mpc, ticks, todo, dpc, ph, took, by, acc, grown>>
Free == mtx = 0
Waiting == {w \in Tids : wpc[w] = "wait"}
Live == {w \in Tids : wpc[w] \notin {"no", "exit", "joined"}}
Kept == {w \in Tids : wpc[w] \notin {"no", "joined"}}
NotifyOne(pc) == IF Waiting = {} THEN wpc' = pc ELSE \E w \in Waiting : wpc' = [pc EXCEPT ![w] = "woken"]
Init == /\ sk = [s \in S |-> 1] /\ spc = [s \in S |-> "call"] /\ wpc = [w \in Tids |-> "no"] /\ wtask = [w \in Tids |-> 0]
        /\ q = <<>> /\ run = TRUE /\ del = 0 /\ dead = {} /\ mtx = 0 /\ mpc = (IF Dyn THEN "init" ELSE "fixed") /\ ticks = 0 /\ todo = Min
        /\ dpc = "start" /\ ph = [i \in 1..N |-> "no"] /\ took = <<>> /\ by = [i \in 1..N |-> 0] /\ acc = {} /\ grown = FALSE
(* submitter s: lock, put, unlock, notify *)
Sub(s) ==
  \/ /\ spc[s] = "call" /\ sk[s] <= PerSub /\ spc' = [spc EXCEPT ![s] = "put"] /\ ph' = [ph EXCEPT ![Task(s, sk[s])] = "called"]
     /\ UNCHANGED <<sk, wpc, wtask, q, run, del, dead, mtx, mpc, ticks, todo, dpc, took, by, acc>>
  \/ /\ spc[s] = "put" /\ (Locked => Free) /\ q' = Append(q, Task(s, sk[s])) /\ ph' = [ph EXCEPT ![Task(s, sk[s])] = "queued"] /\ spc' = [spc EXCEPT ![s] = "notify"]
     /\ UNCHANGED <<sk, wpc, wtask, run, del, dead, mtx, mpc, ticks, todo, dpc, took, by, acc>>
  \/ /\ spc[s] = "notify" /\ (IF Lazy /\ Len(q) > 1 THEN UNCHANGED wpc ELSE NotifyOne(wpc)) /\ spc' = [spc EXCEPT ![s] = "call"] /\ sk' = [sk EXCEPT ![s] = @ + 1] /\ acc' = acc \cup {Task(s, sk[s])}
     /\ UNCHANGED <<wtask, q, run, del, dead, mtx, mpc, ticks, todo, dpc, ph, took, by>>
(* thread w *)
Work(w) ==
  \/ /\ wpc[w] \in {"lock", "woken"} /\ Free /\ (wpc[w] = "lock" => run) /\ mtx' = w /\ wpc' = [wpc EXCEPT ![w] = "check"]
     /\ UNCHANGED <<sk, spc, wtask, q, run, del, dead, mpc, ticks, todo, dpc, ph, took, by, acc>>
  \/ /\ wpc[w] = "lock" /\ ~run /\ wpc' = [wpc EXCEPT ![w] = "exit"]
     /\ UNCHANGED <<sk, spc, wtask, q, run, del, dead, mtx, mpc, ticks, todo, dpc, ph, took, by, acc>>
  \/ /\ wpc[w] = "check"
     /\ IF q = <<>> /\ del = 0 /\ run THEN wpc' = [wpc EXCEPT ![w] = "sleep"] /\ UNCHANGED <<mtx, q, del, dead, wtask, ph, took>>
        ELSE IF ~run THEN wpc' = [wpc EXCEPT ![w] = "exit"] /\ mtx' = 0 /\ UNCHANGED <<q, del, dead, wtask, ph, took>>
        ELSE IF del > 0 THEN wpc' = [wpc EXCEPT ![w] = "exit"] /\ mtx' = 0 /\ del' = del - 1 /\ dead' = dead \cup {w} /\ UNCHANGED <<q, wtask, ph, took>>
        ELSE wpc' = [wpc EXCEPT ![w] = "got"] /\ mtx' = 0 /\ q' = Tail(q) /\ wtask' = [wtask EXCEPT ![w] = q[1]] /\ took' = Append(took, q[1]) /\ ph' = [ph EXCEPT ![q[1]] = "taken"] /\ UNCHANGED <<del, dead>>
     /\ UNCHANGED <<sk, spc, run, mpc, ticks, todo, dpc, by, acc>>
  \/ /\ wpc[w] = "got" /\ wpc' = [wpc EXCEPT ![w] = "run"] /\ ph' = [ph EXCEPT ![wtask[w]] = "run"] /\ by' = [by EXCEPT ![wtask[w]] = w]
     /\ UNCHANGED <<sk, spc, wtask, q, run, del, dead, mtx, mpc, ticks, todo, dpc, took, acc>>
  \/ /\ wpc[w] = "sleep" /\ wpc' = [wpc EXCEPT ![w] = "wait"] /\ mtx' = 0        \* only now a notification reaches it
     /\ UNCHANGED <<sk, spc, wtask, q, run, del, dead, mpc, ticks, todo, dpc, ph, took, by, acc>>
  \/ /\ wpc[w] = "run" /\ (Meet /\ wtask[w] = 1 => ph[2] \in {"run", "done"}) /\ ph' = [ph EXCEPT ![wtask[w]] = "done"] /\ wtask' = [wtask EXCEPT ![w] = 0] /\ wpc' = [wpc EXCEPT ![w] = "lock"]
     /\ UNCHANGED <<sk, spc, q, run, del, dead, mtx, mpc, ticks, todo, dpc, took, by, acc>>
(* the manager (a fixed pool creates its threads and is done) *)
Spawn == todo > 0 /\ \E w \in Tids : /\ wpc[w] = "no" /\ \A v \in Tids : v < w => wpc[v] # "no"
                                     /\ wpc' = [wpc EXCEPT ![w] = "lock"]
                                     /\ todo' = todo - 1
Manage ==
  \/ /\ mpc \in {"init", "fixed", "make"}
     /\ IF todo > 0 THEN Spawn /\ UNCHANGED mpc ELSE mpc' = (IF mpc = "fixed" THEN "off" ELSE "top") /\ UNCHANGED <<wpc, todo>>
     /\ UNCHANGED <<sk, spc, wtask, q, run, del, dead, mtx, ticks, dpc, ph, took, by, acc>>
  \/ /\ mpc = "top" /\ IF run /\ ticks < Ticks THEN mpc' = "reset" /\ ticks' = ticks + 1 ELSE mpc' = (IF run THEN "top" ELSE "off") /\ UNCHANGED ticks
     /\ (run /\ ticks >= Ticks) => FALSE
     /\ UNCHANGED <<sk, spc, wpc, wtask, q, run, del, dead, mtx, todo, dpc, ph, took, by, acc>>
  \/ /\ mpc = "reset" /\ Free /\ del' = 0 /\ mpc' = "clear" /\ UNCHANGED <<sk, spc, wpc, wtask, q, run, dead, mtx, ticks, todo, dpc, ph, took, by, acc>>
  \/ /\ mpc = "clear" /\ IF dead = {} THEN mpc' = "decide" /\ UNCHANGED <<wpc, dead>>
                         ELSE \E w \in dead : wpc' = [wpc EXCEPT ![w] = "no"] /\ dead' = dead \ {w} /\ UNCHANGED mpc      \* joined; its place can be used again
     /\ UNCHANGED <<sk, spc, wtask, q, run, del, mtx, ticks, todo, dpc, ph, took, by, acc>>
  \/ /\ mpc = "decide"     \* any decision that stays within the bounds for the threads that are there now
     /\ \/ \E k \in 1..(Max - Cardinality(Kept)) : todo' = k /\ mpc' = "make" /\ UNCHANGED del
        \/ \E k \in 1..(Cardinality(Kept) - Min) : del' = k /\ todo' = k /\ mpc' = "shrink"
        \/ mpc' = "top" /\ UNCHANGED <<del, todo>>
     /\ UNCHANGED <<sk, spc, wpc, wtask, q, run, dead, mtx, ticks, dpc, ph, took, by, acc>>
  \/ /\ mpc = "shrink" /\ IF todo = 0 THEN mpc' = "top" /\ UNCHANGED <<wpc, todo>> ELSE NotifyOne(wpc) /\ todo' = todo - 1 /\ UNCHANGED mpc
     /\ UNCHANGED <<sk, spc, wtask, q, run, del, dead, mtx, ticks, dpc, ph, took, by, acc>>
(* the destructor: at any moment (Early) or when everything has run *)
Done == \A i \in 1..N : ph[i] = "done"
Ended == \A s \in S : sk[s] > PerSub
Kill ==
  \/ /\ dpc = "start" /\ mpc \notin {"fixed"} /\ Ended /\ (Early \/ Done) /\ (Locked => Free) /\ run' = FALSE /\ dpc' = "op" /\ UNCHANGED <<sk, spc, wpc, wtask, q, del, dead, mtx, mpc, ticks, todo, ph, took, by, acc>>
  \/ /\ dpc = "op" /\ mpc = "off" /\ dpc' = "all" /\ UNCHANGED <<sk, spc, wpc, wtask, q, run, del, dead, mtx, mpc, ticks, todo, ph, took, by, acc>>
  \/ /\ dpc = "all" /\ wpc' = [w \in Tids |-> IF wpc[w] = "wait" THEN "woken" ELSE wpc[w]] /\ dpc' = "clear" /\ UNCHANGED <<sk, spc, wtask, q, run, del, dead, mtx, mpc, ticks, todo, ph, took, by, acc>>
  \/ /\ dpc = "clear" /\ IF dead = {} THEN dpc' = "join" /\ UNCHANGED <<wpc, dead>>
                         ELSE \E w \in dead : wpc' = [wpc EXCEPT ![w] = "joined"] /\ dead' = dead \ {w} /\ UNCHANGED dpc
     /\ UNCHANGED <<sk, spc, wtask, q, run, del, mtx, mpc, ticks, todo, ph, took, by, acc>>
  \/ /\ dpc = "join" /\ IF \A w \in Tids : wpc[w] \in {"no", "joined"} THEN dpc' = "gone" /\ UNCHANGED wpc
                        ELSE \E w \in Tids : wpc[w] = "exit" /\ wpc' = [wpc EXCEPT ![w] = "joined"] /\ UNCHANGED dpc
     /\ UNCHANGED <<sk, spc, wtask, q, run, del, dead, mtx, mpc, ticks, todo, ph, took, by, acc>>
G == grown' = (grown \/ Cardinality(Live') >= Min)
Next == /\ (\E s \in S : Sub(s)) \/ (\E w \in Tids : Work(w)) \/ Manage \/ Kill
        /\ G
Spec == Init /\ [][Next]_vars /\ (\A s \in S : WF_vars(Sub(s) /\ G)) /\ (\A w \in Tids : SF_vars(Work(w) /\ G)) /\ SF_vars(Manage /\ G) /\ SF_vars(Kill /\ G)
Bounds == Cardinality(Live) <= Max /\ (dpc = "start" /\ mpc \notin {"init", "fixed"} => Cardinality(Live) >= Min)
JoinedOnce == dpc \in {"join", "gone"} => dead = {}      \* a thread asked to leave is joined through this set, nobody joins it again
NoneLater == dpc = "gone" => \A w \in Tids : wpc[w] # "run"
Once == [][\A i \in 1..N : ph[i] = "done" => ph'[i] = "done"]_vars
Fifo == (Max = 1) => \A s \in S : \A a, b \in 1..PerSub : a < b /\ ph[Task(s, b)] = "run" => ph[Task(s, a)] = "done"
Inv == Bounds /\ NoneLater /\ JoinedOnce /\ Fifo
Runs == ~Early => <>Done
Ends == <>(dpc = "gone")
(* refinement *)
A == INSTANCE Pool WITH Mode <- "model", Progs <- {}, prog <- [min |-> Min, max |-> Max, t |-> [i \in 1..N |-> [p |-> 0, o |-> "v"]]],
       ph <- ph, acc <- acc, queue <- q, took <- took, by <- by, threads <- Cardinality(Live), grown <- grown,
       life <- (IF dpc = "start" THEN "up" ELSE IF dpc = "gone" THEN "gone" ELSE "closing"), id <- 0, pos <- 1
Refines == [][A!MNext]_(A!vars)
=============================================================================
