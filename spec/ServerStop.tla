----------------------------- MODULE ServerStop -----------------------------
(* Starting, serving and stopping the server.  Every worker thread has its    *)
(* own listening socket and event loop; it looks at the stop flag only when   *)
(* it accepts, so stopping means connecting (probe) until no worker is left.  *)
(* A worker ends when it has closed its listening socket and all of its       *)
(* connections have ended: after their current response, or by their time     *)
(* limit.  A driver performs operations on the server and on connections and  *)
(* observes the results.  Traced = FALSE: TLC explores the system and         *)
(* generates driver programs; Traced = TRUE: it judges recorded runs.         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, ServerStopData
CONSTANTS Traced, Workers, Conns, MaxOps, Keep
VARIABLES t, i,
          run, count, wk,      \* stop flag (negated), number of live workers, workers: "off" "spawned" "listen" "drain" "gone"
          cn,                  \* connections: s "none" "queued" "idle" "busy" "stream" "answered" "ending" "closed" "reset"; w its worker; k what the client
                               \* awaits; q: a request nobody has taken; pre: it came while the server ran and read
          seen,                \* what the driver has seen of the answer: "" "part", or the "end" of the connection
          stop,                \* "no" "looping" "returned" "joined"
          fds,                 \* "off": not started; descriptors: "no" (nothing is known of them), "can", or none left: "out" (accepting fails)
          hist, n
vars == <<t, i, fds, run, count, wk, cn, seen, stop, hist, n>>
T == Traces[t]
NW == IF Traced THEN T.workers ELSE 2
Ws == 1..(IF Traced THEN T.workers ELSE Workers)
Cs == 1..Conns
None == [s |-> "none", w |-> 0, k |-> "", q |-> FALSE, pre |-> FALSE]
Init == /\ t \in (IF Traced THEN 1..Len(Traces) ELSE {0}) /\ i = 1 /\ run = TRUE /\ count = 0
        /\ wk = [w \in Ws |-> "off"] /\ cn = [c \in Cs |-> None] /\ seen = [c \in Cs |-> ""] /\ stop = "no" /\ fds = "off" /\ hist = <<>> /\ n = 0
O(o, c, k, r) == [o |-> o, c |-> c, k |-> k, r |-> r]
See(e) == IF Traced THEN i <= Len(T.evs) /\ T.evs[i] = e /\ i' = i + 1 /\ UNCHANGED <<t, hist, n>>
          ELSE n < MaxOps /\ n' = n + 1 /\ hist' = (IF Keep THEN Append(hist, e) ELSE hist) /\ UNCHANGED <<t, i>>
Quiet == UNCHANGED <<t, i, hist, n, fds>>
\* ------------------------------------------------------------------- workers
\* workers are alike: of those without connections in the same state the first is taken
Used(w) == \E c \in Cs : cn[c].w = w
Pick(w) == Used(w) \/ \A v \in 1..(w - 1) : wk[v] # wk[w] \/ Used(v)
Listen == \E w \in Ws : wk[w] = "spawned" /\ Pick(w) /\ wk' = [wk EXCEPT ![w] = "listen"] /\ UNCHANGED <<run, count, cn, seen, stop>> /\ Quiet
Ended(c) == cn[c].s \in {"none", "closed", "reset"}
\* the worker takes a connection from its queue; then it looks at the flag; what remains queued is reset
AfterAccept(w) == IF run THEN "listen" ELSE "drain"
Accept == \E w \in Ws, c \in Cs :
          /\ wk[w] = "listen" /\ cn[c].s = "queued" /\ cn[c].w = w
          /\ cn' = [d \in Cs |-> IF d = c THEN [cn[d] EXCEPT !.s = "idle"]
                                 ELSE IF ~run /\ cn[d].s = "queued" /\ cn[d].w = w THEN [cn[d] EXCEPT !.s = "reset"] ELSE cn[d]]
          /\ wk' = [wk EXCEPT ![w] = AfterAccept(w)] /\ UNCHANGED <<run, count, seen, stop>> /\ Quiet
\* the stopping thread's own connection reaches some listening worker
\* (an accept already under way has its descriptor limit from before and may succeed)
\* when accepting fails, the worker tries again as long as the server runs
Fail == \E w \in Ws : /\ fds = "out" /\ ~run /\ wk[w] = "listen" /\ Pick(w)
        /\ cn' = [d \in Cs |-> IF cn[d].s = "queued" /\ cn[d].w = w THEN [cn[d] EXCEPT !.s = "reset"] ELSE cn[d]]
        /\ wk' = [wk EXCEPT ![w] = "drain"] /\ UNCHANGED <<run, count, seen, stop>> /\ Quiet
Probe == \E w \in Ws : /\ fds # "out" /\ stop = "looping" /\ count > 0 /\ wk[w] = "listen" /\ Pick(w)
         /\ cn' = [d \in Cs |-> IF cn[d].s = "queued" /\ cn[d].w = w THEN [cn[d] EXCEPT !.s = "reset"] ELSE cn[d]]
         /\ wk' = [wk EXCEPT ![w] = "drain"] /\ UNCHANGED <<run, count, seen, stop>> /\ Quiet
MayLeave(w) == wk[w] = "drain" /\ Pick(w) /\ \A c \in Cs : cn[c].w = w => Ended(c)
Leave == \E w \in Ws : /\ MayLeave(w)
         /\ wk' = [wk EXCEPT ![w] = "gone"] /\ count' = count - 1 /\ UNCHANGED <<run, cn, seen, stop>> /\ Quiet
StopReturns == stop = "looping" /\ count = 0 /\ stop' = "returned" /\ UNCHANGED <<run, count, wk, cn, seen>> /\ Quiet
\* --------------------------------------------------------------- connections
Set(c, s) == cn' = [cn EXCEPT ![c].s = s]
Begin == \E c \in Cs : /\ cn[c].s = "idle" /\ cn[c].q
                       /\ cn' = [cn EXCEPT ![c].s = IF cn[c].k = "stream" THEN "stream" ELSE "busy", ![c].q = FALSE] /\ UNCHANGED <<run, count, wk, seen, stop>> /\ Quiet
Finish == \E c \in Cs : cn[c].s \in {"busy", "stream"} /\ Set(c, IF cn[c].s = "stream" THEN "ending" ELSE "answered") /\ UNCHANGED <<run, count, wk, seen, stop>> /\ Quiet
\* after the answer: the next request, or the end
Next1 == \E c \in Cs : cn[c].s \in {"answered", "ending"} /\ Set(c, IF run /\ cn[c].s = "answered" THEN "idle" ELSE "closed") /\ UNCHANGED <<run, count, wk, seen, stop>> /\ Quiet
\* a connection without a complete request ends by its time limit (observed only while stopping: the limit is long)
TimeOut == \E c \in Cs : ~run /\ cn[c].s = "idle" /\ ~(cn[c].q /\ cn[c].pre) /\ Set(c, "closed") /\ UNCHANGED <<run, count, wk, seen, stop>> /\ Quiet
\* -------------------------------------------------------------------- driver
\* starting spawns the workers and returns when all of them listen
Launch == /\ (\A w \in Ws : wk[w] = "off") /\ wk' = [w \in Ws |-> "spawned"] /\ count' = Cardinality(Ws) /\ UNCHANGED <<run, cn, seen, stop>> /\ Quiet
Start == fds = "off" /\ (\A w \in Ws : wk[w] = "listen") /\ See(O("start", 0, "", "ok")) /\ fds' = "no" /\ UNCHANGED <<run, count, wk, cn, seen, stop>>
Ready == /\ (\A w \in Ws : wk[w] # "off" /\ wk[w] # "spawned") /\ stop = "no" /\ fds = "no" /\ See(O("ready", 0, "", "ok")) /\ fds' = "can" /\ UNCHANGED <<run, count, wk, cn, seen, stop>>
Connect == \E c \in Cs :
           /\ cn[c].s = "none" /\ fds # "off"
           /\ \/ \E w \in Ws : wk[w] = "listen" /\ Pick(w) /\ See(O("conn", c, "", "ok")) /\ cn' = [cn EXCEPT ![c] = [s |-> "queued", w |-> w, k |-> "", q |-> FALSE, pre |-> FALSE]]
              \/ (\A w \in Ws : wk[w] # "listen") /\ See(O("conn", c, "", "refused")) /\ cn' = [cn EXCEPT ![c].s = "closed"]
           /\ UNCHANGED <<fds, run, count, wk, seen, stop>>
Kinds == {"fast", "slow", "stream"}
Request == \E c \in Cs, k \in Kinds :
           /\ cn[c].s # "none" /\ cn[c].k = "" /\ seen[c] # "part" /\ See(O("req", c, k, "ok"))
           /\ cn' = [cn EXCEPT ![c].k = k, ![c].q = TRUE, ![c].pre = run /\ cn[c].s \in {"queued", "idle"}, ![c].w = IF Ended(c) THEN 0 ELSE @]
           /\ seen' = [seen EXCEPT ![c] = ""] /\ UNCHANGED <<fds, run, count, wk, stop>>
\* part of a request: the connection stays without a complete request
Partly == \E c \in Cs : cn[c].s # "none" /\ cn[c].k = "" /\ seen[c] # "part" /\ See(O("part", c, "", "ok")) /\ cn' = [cn EXCEPT ![c].k = "part"] /\ UNCHANGED <<fds, run, count, wk, seen, stop>>
\* the driver waits until the handler runs (slow) or the first part of the response has come (stream)
Served(c) == ~cn[c].q /\ cn[c].w > 0
Begun == \E c \in Cs : /\ cn[c].k \in {"slow", "stream"} /\ seen[c] = "" /\ Served(c) /\ cn[c].s \in {"busy", "stream", "answered", "ending", "idle", "closed"}
                       /\ See(O("begun", c, "", "ok")) /\ seen' = [seen EXCEPT ![c] = "part"] /\ UNCHANGED <<fds, run, count, wk, cn, stop>>
Answered(c) == cn[c].k \in Kinds /\ Served(c) /\ cn[c].s \in {"answered", "ending", "idle", "closed"}
ReadFull == \E c \in Cs : Answered(c) /\ See(O("read", c, "", "full")) /\ seen' = [seen EXCEPT ![c] = ""] /\ cn' = [cn EXCEPT ![c].k = ""] /\ UNCHANGED <<fds, run, count, wk, stop>>
\* nothing came: the connection was never served (reset while queued), or it ended without a complete request, or before the request
ReadClosed == \E c \in Cs, o \in {"read", "begun"} :
              /\ cn[c].s \in {"closed", "reset"} /\ seen[c] # "part" /\ ~(cn[c].k \in Kinds /\ Served(c))
              /\ See(O(o, c, "", "closed")) /\ seen' = [seen EXCEPT ![c] = "end"] /\ cn' = [cn EXCEPT ![c].k = "", ![c].q = FALSE, ![c].w = 0] /\ UNCHANGED <<fds, run, count, wk, stop>>
\* a request that comes while stopping may be missed
Missed == \E c \in Cs : ~run /\ cn[c].s = "idle" /\ cn[c].q /\ ~cn[c].pre /\ Set(c, "reset") /\ UNCHANGED <<run, count, wk, seen, stop>> /\ Quiet
Stop == \E k \in {"sync", "async", "destroy"} : stop = "no" /\ fds # "off" /\ See(O("stop", 0, k, "ok")) /\ run' = FALSE /\ stop' = "looping" /\ UNCHANGED <<fds, count, wk, cn, seen>>
Starve == fds = "can" /\ stop = "no" /\ See(O("starve", 0, "", "ok")) /\ fds' = "out" /\ UNCHANGED <<run, count, wk, cn, seen, stop>>
Feed == /\ fds = "out" /\ (IF Traced THEN See(O("feed", 0, "", "ok")) ELSE hist' = (IF Keep THEN Append(hist, O("feed", 0, "", "ok")) ELSE hist) /\ UNCHANGED <<t, i, n>>)
        /\ fds' = "can" /\ UNCHANGED <<run, count, wk, cn, seen, stop>>
Join == stop = "returned" /\ See(O("join", 0, "", "ok")) /\ stop' = "joined" /\ UNCHANGED <<fds, run, count, wk, cn, seen>>
\* afterwards nobody listens, and the port serves again
Again == /\ stop = "joined" /\ fds # "out" /\ See(O("again", 0, "", "ok")) /\ stop' = "over" /\ UNCHANGED <<fds, run, count, wk, cn, seen>>
System == Launch \/ Listen \/ Accept \/ Fail \/ Probe \/ Leave \/ StopReturns \/ Begin \/ Finish \/ Next1 \/ TimeOut
Driver == Start \/ Ready \/ Connect \/ Request \/ Partly \/ Begun \/ ReadFull \/ ReadClosed \/ Stop \/ Starve \/ Feed \/ Join \/ Again
Next == stop # "over" /\ (IF Traced /\ (\E w \in Ws : MayLeave(w)) THEN Leave ELSE System \/ Missed \/ Driver)
Spec == Init /\ [][Next]_vars /\ WF_vars(Launch) /\ WF_vars(Listen) /\ WF_vars(Accept) /\ WF_vars(Probe) /\ WF_vars(Leave) /\ WF_vars(StopReturns)
             /\ WF_vars(Feed) /\ WF_vars(Begin) /\ WF_vars(Finish) /\ WF_vars(Next1) /\ WF_vars(TimeOut)
\* ---------------------------------------------------------------- properties
StopTerminates == (stop = "looping") ~> (stop = "returned")
\* what was begun is completed: no way from running to an end without the answer
NoneCut == [][\A c \in Cs : cn[c].s \in {"busy", "stream"} => cn'[c].s \in {"busy", "stream", "answered", "ending"}]_vars
\* from the start until the stop every connection is taken
Open == fds # "off" /\ run => \A w \in Ws : wk[w] = "listen"
AllOver == stop \in {"returned", "joined", "over"} => (\A w \in Ws : wk[w] = "gone") /\ (\A c \in Cs : cn[c].w > 0 => Ended(c))
Counted == count = Cardinality({w \in Ws : wk[w] \in {"spawned", "listen", "drain"}})
Accepted == (Traced /\ i > Len(T.evs)) => PrintT("@@" \o ToJson(t))
Emit == (~Traced /\ Keep /\ stop = "over") => PrintT("@@" \o ToJson([ops |-> hist]))
=============================================================================
