--------------------------------- MODULE Coro ---------------------------------
(* Coroutines on the event loop: an abstract machine that runs any program of    *)
(* tasks (awaiting, throwing, dropping, detached), timers, yields, I/O waits,    *)
(* whenAny, whenAll and the serial executor.                                     *)
(* A program is a tree of task bodies; body t of prog[t] is a sequence of        *)
(* statements [k, n, cs, c]:                                                     *)
(*   sleep (until deadline n), for (at least n), yield, io (wait for signal n),  *)
(*   wake (give signal n), call/serial/spawn/drop (child cs[1]), any/all (cs),   *)
(*   throw (n); c: an exception of the awaited operation is caught here.         *)
(* What is observable: a body begins (b), a statement ends with its outcome (s), *)
(* a root ends (q), the loop ends (z), and which locals (2t) and frames (2t+1)   *)
(* have been destroyed since the last event.                                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Mode           \* "model": explore Programs;  "trace": accept recorded traces
VARIABLES prog,          \* the program (constant of a behaviour)
          pc, st, res, timers, yq, ios, woken, sn, sq, srun, stack, roots, gone, log, id, pos, over
vars == <<prog, pc, st, res, timers, yq, ios, woken, sn, sq, srun, stack, roots, gone, log, id, pos, over>>
T == DOMAIN prog.t
Body(t) == prog.t[t].body
Raw(t) == prog.t[t].raw
Par(t) == prog.t[t].par
Stmt(t) == Body(t)[pc[t]]
PStmt(t) == Body(Par(t))[prog.t[t].ps]
(* the operation below t: t and everything it awaits, not what it detached *)
RECURSIVE Up(_, _)
Up(t, a) == t = a \/ (Par(t) # 0 /\ PStmt(t).k # "spawn" /\ Up(Par(t), a))
Alive == {t \in T : st[t] \notin {"no", "dead"}}
Below(A) == {t \in Alive : \E a \in A : Up(t, a)}
Gone(D) == {2 * t : t \in {u \in D : st[u] = "run" /\ ~Raw(u)}} \cup {2 * t + 1 : t \in {u \in D : ~Raw(u)}}
Range(s) == {s[i] : i \in 1..Len(s)}
Top == stack[1]
Rest == Tail(stack)
I(k, t) == [k |-> k, t |-> t, j |-> 0, w |-> FALSE, r |-> <<0, 0>>]
Ev(e, t, i, r, g) == [e |-> e, t |-> t, i |-> i, r |-> r, g |-> g]
(* an event: appended to the history, or required to be the next of the recorded trace *)
Traces == IF Mode = "trace" THEN JsonDeserialize("traces.json") ELSE <<>>
Same(a, b) == a.e = b.e /\ a.t = b.t /\ a.i = b.i /\ a.r = b.r /\ a.g = Range(b.g)
Out(e, t, i, r, g) ==
  /\ IF Mode = "trace" THEN /\ pos <= Len(Traces[id].log) /\ Same(Ev(e, t, i, r, g), Traces[id].log[pos])
                            /\ log' = log
     ELSE log' = Append(log, Ev(e, t, i, r, g))
  /\ pos' = pos + 1 /\ gone' = {}
Quiet(g) == gone' = gone \cup g /\ UNCHANGED <<log, pos>>
Loopless == UNCHANGED <<timers, yq, ios, woken, sn, sq, srun>>
(* ------------------------------------------------------------------ running *)
Begin == LET t == Top.t IN
  /\ Top.k = "run" /\ pc[t] = 0
  /\ pc' = [pc EXCEPT ![t] = 1] /\ st' = [st EXCEPT ![t] = "run"]
  /\ IF Raw(t) THEN Quiet({}) ELSE Out("b", t, 0, <<0>>, gone)
  /\ Loopless /\ UNCHANGED <<res, stack>>
(* t is over with outcome r (<<0, value>> or <<1, exception>>); its locals are gone *)
Finish(t, r, rest) ==
  LET p == Par(t) IN
  LET k == IF p = 0 THEN "root" ELSE PStmt(t).k IN
  /\ st' = [st EXCEPT ![t] = "fin"] /\ res' = [res EXCEPT ![t] = r]
  /\ Quiet(IF Raw(t) THEN {} ELSE {2 * t})
  /\ stack' = IF k \in {"root", "spawn"} THEN <<I("root", t)>> \o rest
              ELSE IF k = "serial" THEN <<[I("imm", p) EXCEPT !.w = TRUE, !.j = 1]>> \o rest
              ELSE IF k = "all" /\ \E c \in Range(PStmt(t).cs) : c # t /\ st[c] # "fin" THEN rest
              ELSE <<I("done", p)>> \o rest
  /\ Loopless /\ UNCHANGED pc
Ends == Top.k = "run" /\ pc[Top.t] = Len(Body(Top.t)) + 1 /\ Finish(Top.t, <<0, IF Raw(Top.t) THEN 0 ELSE Top.t>>, Rest)
Throws == Top.k = "run" /\ pc[Top.t] \in 1..Len(Body(Top.t)) /\ Stmt(Top.t).k = "throw" /\ Finish(Top.t, <<1, Stmt(Top.t).n>>, Rest)
Fails == Top.k = "fail" /\ Finish(Top.t, Top.r, Rest)
RootEnds == LET t == Top.t IN
  /\ Top.k = "root"
  /\ IF prog.sync /\ t = 1 THEN stack' = Rest /\ UNCHANGED <<st, gone, log, pos>>          \* its result is seen when the loop ends
     ELSE stack' = Rest /\ st' = [st EXCEPT ![t] = "dead"] /\ Out("q", t, 0, res[t], gone \cup {2 * t + 1})
  /\ Loopless /\ UNCHANGED <<pc, res>>
Running(k) == Top.k = "run" /\ pc[Top.t] \in 1..Len(Body(Top.t)) /\ Stmt(Top.t).k = k
Suspend == stack' = Rest /\ Quiet({}) /\ UNCHANGED <<pc, st, res>>
Sleep == Running("sleep") /\ timers' = timers \cup {[d |-> Stmt(Top.t).n, s |-> sn, t |-> Top.t, f |-> FALSE]} /\ sn' = sn + 1 /\ Suspend /\ UNCHANGED <<yq, ios, woken, sq, srun>>
For == (Running("for") \/ Running("tick")) /\ timers' = timers \cup {[d |-> 0, s |-> sn, t |-> Top.t, f |-> TRUE]} /\ sn' = sn + 1 /\ Suspend /\ UNCHANGED <<yq, ios, woken, sq, srun>>
Yield == (Running("yield") \/ Running("spin")) /\ yq' = Append(yq, Top.t) /\ Suspend /\ UNCHANGED <<timers, ios, woken, sn, sq, srun>>
Io == Running("io") /\ ios' = ios \cup {[t |-> Top.t, n |-> Stmt(Top.t).n]} /\ Suspend /\ UNCHANGED <<timers, yq, woken, sn, sq, srun>>
(* statements that end at once *)
Many == LET t == Top.t IN
  Running("many") /\ pc' = [pc EXCEPT ![t] = @ + 1] /\ Out("s", t, pc[t], <<0, 0>>, gone) /\ Loopless /\ UNCHANGED <<st, res, stack>>
Wake == LET t == Top.t IN
  Running("wake") /\ woken' = woken \cup {Stmt(t).n} /\ pc' = [pc EXCEPT ![t] = @ + 1] /\ Out("s", t, pc[t], <<0, 0>>, gone)
  /\ UNCHANGED <<st, res, stack, timers, yq, ios, sn, sq, srun>>
Drop == LET t == Top.t IN
  Running("drop") /\ pc' = [pc EXCEPT ![t] = @ + 1] /\ Out("s", t, pc[t], <<0, 0>>, gone \cup {2 * Stmt(t).cs[1] + 1})
  /\ st' = [st EXCEPT ![Stmt(t).cs[1]] = "dead"] /\ Loopless /\ UNCHANGED <<res, stack>>
Call == Running("call") /\ stack' = <<I("run", Stmt(Top.t).cs[1])>> \o Rest /\ Quiet({}) /\ Loopless /\ UNCHANGED <<pc, st, res>>
Spawn == LET t == Top.t IN
  Running("spawn") /\ stack' = <<I("run", Stmt(t).cs[1]), I("spawned", t)>> \o Rest /\ Quiet({}) /\ Loopless /\ UNCHANGED <<pc, st, res>>
Spawned == LET t == Top.t IN
  /\ Top.k = "spawned" /\ pc' = [pc EXCEPT ![t] = @ + 1] /\ Out("s", t, pc[t], <<0, 0>>, gone) /\ stack' = <<I("run", t)>> \o Rest
  /\ Loopless /\ UNCHANGED <<st, res>>
(* several operations: all exist at once, they are started one after the other *)
Several == LET t == Top.t  cs == Stmt(t).cs IN
  /\ (Running("any") \/ Running("all"))
  /\ st' = [u \in T |-> IF u \in Range(cs) THEN "made" ELSE st[u]]
  /\ stack' = (IF Len(cs) = 1 THEN <<I("run", cs[1])>> ELSE <<I("run", cs[1]), [I("loop", t) EXCEPT !.j = 2]>>) \o Rest
  /\ Quiet({}) /\ Loopless /\ UNCHANGED <<pc, res>>
StartNext == LET t == Top.t  cs == Stmt(t).cs IN
  /\ Top.k = "loop"
  /\ stack' = (IF Top.j = Len(cs) THEN <<I("run", cs[Top.j])>> ELSE <<I("run", cs[Top.j]), [Top EXCEPT !.j = @ + 1]>>) \o Rest
  /\ Quiet({}) /\ Loopless /\ UNCHANGED <<pc, st, res>>
RECURSIVE Flat(_)
Flat(cs) == IF cs = <<>> THEN <<>> ELSE res[cs[1]] \o Flat(Tail(cs))
Outcome(s) ==      \* of a statement all of whose awaited operations are over
  LET cs == s.cs IN
  IF s.k = "all" THEN <<3>> \o Flat(cs)
  ELSE IF s.k = "any" THEN LET j == CHOOSE j \in 1..Len(cs) : st[cs[j]] = "fin" IN
                           IF res[cs[j]][1] = 1 THEN res[cs[j]] ELSE <<2, j, res[cs[j]][2]>>
  ELSE res[cs[1]]
(* the awaited operation of t's statement is decided: the rest of it is abandoned, t goes on *)
Done == LET t == Top.t  s == Stmt(t)  D == Below(Range(s.cs))  r == Outcome(s)
            rest == IF Rest # <<>> /\ Rest[1].k = "loop" /\ Rest[1].t = t THEN Tail(Rest) ELSE Rest IN
  /\ Top.k = "done"
  /\ st' = [u \in T |-> IF u \in D THEN "dead" ELSE st[u]]
  /\ timers' = {x \in timers : x.t \notin D} /\ ios' = {x \in ios : x.t \notin D} /\ yq' = SelectSeq(yq, LAMBDA u : u \notin D)
  /\ IF r[1] = 1 /\ ~s.c
     THEN stack' = <<[I("fail", t) EXCEPT !.r = r]>> \o rest /\ Quiet(Gone(D)) /\ UNCHANGED pc
     ELSE stack' = <<I("run", t)>> \o rest /\ pc' = [pc EXCEPT ![t] = @ + 1] /\ Out("s", t, pc[t], r, gone \cup Gone(D))
  /\ UNCHANGED <<res, woken, sn, sq, srun>>
(* serial executor: one operation at a time, in the order of submission; when one ends, *)
(* its submitter goes on and the next one starts, in either order                       *)
Serial == LET t == Top.t  c == Stmt(t).cs[1] IN
  /\ Running("serial")
  /\ st' = [st EXCEPT ![c] = "made"]
  /\ IF srun THEN sq' = Append(sq, c) /\ stack' = Rest /\ UNCHANGED srun
     ELSE srun' = TRUE /\ stack' = <<I("run", c)>> \o Rest /\ UNCHANGED sq
  /\ Quiet({}) /\ UNCHANGED <<pc, res, timers, yq, ios, woken, sn>>
ImmWaiter == Top.k = "imm" /\ Top.w /\ stack' = <<I("done", Top.t), [Top EXCEPT !.w = FALSE]>> \o Rest /\ Quiet({}) /\ Loopless /\ UNCHANGED <<pc, st, res>>
ImmNext == /\ Top.k = "imm" /\ Top.j = 1
           /\ IF sq = <<>> THEN srun' = FALSE /\ sq' = sq /\ stack' = <<[Top EXCEPT !.j = 0]>> \o Rest
              ELSE srun' = srun /\ sq' = Tail(sq) /\ stack' = <<I("run", sq[1]), [Top EXCEPT !.j = 0]>> \o Rest
           /\ Quiet({}) /\ UNCHANGED <<pc, st, res, timers, yq, ios, woken, sn>>
ImmEnd == Top.k = "imm" /\ ~Top.w /\ Top.j = 0 /\ stack' = Rest /\ Quiet({}) /\ Loopless /\ UNCHANGED <<pc, st, res>>
Step == /\ stack # <<>> /\ ~over
        /\ \/ Begin \/ Ends \/ Throws \/ Fails \/ RootEnds \/ Sleep \/ For \/ Yield \/ Io \/ Many \/ Wake \/ Drop \/ Call \/ Spawn \/ Spawned
           \/ Several \/ StartNext \/ Done \/ Serial \/ ImmWaiter \/ ImmNext \/ ImmEnd
        /\ UNCHANGED <<prog, roots, id, over>>
(* ------------------------------------------------------------------ the loop *)
StartRoot == /\ stack = <<>> /\ roots # <<>> /\ roots' = Tail(roots) /\ stack' = <<I("run", roots[1])>>
             /\ UNCHANGED <<prog, pc, st, res, timers, yq, ios, woken, sn, sq, srun, gone, log, id, pos, over>>
Earlier(a, b) == a.d < b.d \/ (a.d = b.d /\ a.s < b.s)
Resume(t) == /\ IF Raw(t) THEN Quiet({}) ELSE Out("s", t, pc[t], <<0, 0>>, gone)
             /\ pc' = [pc EXCEPT ![t] = @ + 1] /\ stack' = <<I("run", t)>>
             /\ UNCHANGED <<prog, st, res, woken, sn, sq, srun, roots, id, over>>
(* spin: yields, tick: sleeps again and again until signal n was given *)
Again(t, k) == Stmt(t).k = k /\ Stmt(t).n \notin woken
Idle == stack = <<>> /\ roots = <<>> /\ ~over
FireTimer == Idle /\ \E x \in timers : /\ x.f \/ \A y \in timers : y.f \/ y = x \/ Earlier(x, y)
                                       /\ UNCHANGED <<yq, ios>>
                                       /\ IF Again(x.t, "tick") THEN UNCHANGED <<prog, pc, st, res, timers, woken, sn, sq, srun, stack, roots, gone, log, id, pos, over>>
                                          ELSE timers' = timers \ {x} /\ Resume(x.t)
FireYield == Idle /\ yq # <<>> /\ UNCHANGED <<timers, ios>>
             /\ IF Again(yq[1], "spin") THEN yq' = Append(Tail(yq), yq[1]) /\ UNCHANGED <<prog, pc, st, res, woken, sn, sq, srun, stack, roots, gone, log, id, pos, over>>
                ELSE yq' = Tail(yq) /\ Resume(yq[1])
FireIo == Idle /\ \E x \in ios : x.n \in woken /\ ios' = ios \ {x} /\ Resume(x.t) /\ UNCHANGED <<timers, yq>>
(* the loop returns only when nothing is pending *)
End == /\ Idle /\ timers = {} /\ yq = <<>> /\ ios = {}
       /\ IF prog.sync /\ st[1] = "fin"
          THEN st' = [st EXCEPT ![1] = "dead"] /\ Out("q", 1, 0, res[1], gone \cup {3}) /\ UNCHANGED over
          ELSE Out("z", 0, 0, <<0>>, gone) /\ over' = TRUE /\ UNCHANGED st
       /\ UNCHANGED <<prog, pc, res, timers, yq, ios, woken, sn, sq, srun, stack, roots, id>>
Next == Step \/ StartRoot \/ FireTimer \/ FireYield \/ FireIo \/ End
(* ------------------------------------------------------------------ programs *)
InitWith(p) == /\ prog = p /\ pc = [t \in DOMAIN p.t |-> 0] /\ st = [t \in DOMAIN p.t |-> "no"] /\ res = [t \in DOMAIN p.t |-> <<0, 0>>]
               /\ timers = {} /\ yq = <<>> /\ ios = {} /\ woken = {} /\ sn = 0 /\ sq = <<>> /\ srun = FALSE /\ stack = <<>>
               /\ roots = p.roots /\ gone = {} /\ log = <<>> /\ pos = 1 /\ over = FALSE
S(k, n) == [k |-> k, n |-> n, cs |-> <<>>, c |-> FALSE]
SC(k, cs, c) == [k |-> k, n |-> 0, cs |-> cs, c |-> c]
TK(par, ps, body) == [raw |-> FALSE, par |-> par, ps |-> ps, body |-> body]
Lf == {<<>>, <<S("sleep", 1)>>, <<S("sleep", 2)>>, <<S("yield", 0)>>, <<S("throw", 7)>>, <<S("yield", 0), S("yield", 0)>>, <<S("sleep", 1), S("throw", 8)>>, <<S("io", 1), S("yield", 0)>>, <<S("for", 1)>>}
Wk == <<S("sleep", 3), S("wake", 1)>>
P(main, rest) == [sync |-> FALSE, roots |-> <<1, 2>>, t |-> <<TK(0, 0, main), TK(0, 0, Wk)>> \o rest]
Multi == {"any", "all"}
(* two or three operations together *)
P2 == {P(<<SC(k, <<3, 4>>, c)>>, <<TK(1, 1, a), TK(1, 1, b)>>) : k \in Multi, c \in BOOLEAN, a \in Lf, b \in Lf}
P3 == {P(<<SC(k, <<3, 4, 5>>, TRUE), S("yield", 0)>>, <<TK(1, 1, a), TK(1, 1, b), TK(1, 1, d)>>) : k \in Multi, a \in Lf, b \in Lf, d \in Lf}
(* together within together, and calls within *)
P4 == {P(<<SC(k, <<3, 4>>, TRUE)>>, <<TK(1, 1, <<SC(m, <<5, 6>>, FALSE)>>), TK(1, 1, a), TK(3, 1, b), TK(3, 1, d)>>) : k \in Multi, m \in Multi, a \in Lf, b \in Lf, d \in Lf}
P5 == {P(<<SC("spawn", <<3>>, FALSE), SC("call", <<4>>, TRUE), SC("drop", <<5>>, FALSE)>>, <<TK(1, 1, a), TK(1, 2, <<SC("call", <<6>>, c), S("yield", 0)>>), TK(1, 3, <<>>), TK(4, 1, b)>>) : c \in BOOLEAN, a \in Lf, b \in Lf}
(* three submitters of the serial executor, one of them twice *)
P6 == {[sync |-> FALSE, roots |-> <<1, 2, 3, 4>>, t |-> <<TK(0, 0, <<SC("serial", <<5>>, TRUE), SC("serial", <<8>>, TRUE)>>), TK(0, 0, Wk), TK(0, 0, <<SC("serial", <<6>>, TRUE)>>), TK(0, 0, <<SC("serial", <<7>>, FALSE)>>),
                                                        TK(1, 1, a), TK(3, 1, b), TK(4, 1, d), TK(1, 2, <<>>)>>] : a \in Lf, b \in Lf, d \in Lf}
(* whatever the others do: endless yielding and endless short sleeps until somebody else goes on *)
P7 == {[sync |-> FALSE, roots |-> <<1, 2, 3>>, t |-> <<TK(0, 0, <<S("spin", 1)>>), TK(0, 0, <<S("tick", 1)>>), TK(0, 0, a \o <<S("wake", 1)>>)>>] : a \in {b \in Lf : \A i \in 1..Len(b) : b[i].k \notin {"throw", "io"}}}
Small == P7 \cup P2 \cup P5
Deep == P7 \cup P2 \cup P3 \cup P4 \cup P5 \cup P6
CONSTANT Programs
MInit == /\ id = 0 /\ \E p \in Programs : InitWith(p)
TInit == \E n \in 1..Len(Traces) : id = n /\ InitWith(Traces[n].prog)
MSpec == MInit /\ [][Next]_vars /\ WF_vars(Step \/ StartRoot \/ End) /\ SF_vars(FireTimer) /\ SF_vars(FireYield) /\ SF_vars(FireIo)
(* ------------------------------------------------------------------ what must hold *)
EvOf(t) == {i \in 1..Len(log) : log[i].t = t}
At(e, t) == {i \in 1..Len(log) : log[i].e = e /\ log[i].t = t}
Once(S1) == Cardinality(S1) <= 1
(* L05: a body runs once; locals and frame go once, after the last event of the body *)
GoneAt(x) == {i \in 1..Len(log) : x \in log[i].g}
Frames == \A t \in T : /\ Once(At("b", t)) /\ Once(GoneAt(2 * t)) /\ Once(GoneAt(2 * t + 1)) /\ Once(At("q", t))
                       /\ \A i \in GoneAt(2 * t), j \in EvOf(t) : j < i \/ log[j].e = "q"
                       /\ \A i \in GoneAt(2 * t + 1), j \in EvOf(t) : j < i \/ log[j].e = "q"
AllGone == over => \A t \in T : ~Raw(t) => (At("b", t) # {} <=> GoneAt(2 * t) # {}) /\ (st[t] \in {"no", "dead"}) /\ (st[t] = "dead" <=> GoneAt(2 * t + 1) # {})
(* statements of a body end in order, each once *)
InOrder == \A t \in T : \A i, j \in At("s", t) : i < j => log[i].i < log[j].i
(* L03: once a whenAny is decided nothing of it happens any more *)
AnyOver == \A t \in T : \A i \in At("s", t) : Body(t)[log[i].i].k \in {"any", "all", "call", "serial"} =>
             \A u \in T : (u # t /\ \E c \in Range(Body(t)[log[i].i].cs) : Up(u, c)) => \A j \in EvOf(u) : j < i
(* L04: whenAll goes on only when each operation is over, with each one's outcome *)
AllWaits == \A t \in T : \A i \in At("s", t) : Body(t)[log[i].i].k = "all" =>
             \A n \in 1..Len(Body(t)[log[i].i].cs) : LET c == Body(t)[log[i].i].cs[n] IN
                res[c] = <<log[i].r[2 * n], log[i].r[2 * n + 1]>> /\ (res[c][1] = 0 => \A m \in 1..Len(Body(c)) : \E j \in At("s", c) : log[j].i = m)
(* L06: between the begin and the end of a serial operation no other one runs; they begin in order of submission *)
Ser(c) == Par(c) # 0 /\ PStmt(c).k = "serial"
OneAtATime == \A c, e \in {u \in T : Ser(u)} : c # e => ~(st[c] = "run" /\ st[e] = "run")
Ends1 == <>over
Inv == Frames /\ AllGone /\ InOrder /\ AnyOver /\ AllWaits /\ OneAtATime
(* L01: of two sleeping bodies the one with the earlier deadline goes on first *)
TimerOrder == [][stack = <<>> => \A x, y \in timers : (~x.f /\ ~y.f /\ Earlier(x, y) /\ y \notin timers') => (x \notin timers' \/ over')]_vars
(* L02: yields in order *)
YieldOrder == [][yq # <<>> /\ yq' # yq => \/ (Len(yq') > Len(yq) /\ SubSeq(yq', 1, Len(yq)) = yq) \/ yq' = Tail(yq) \/ yq' = Append(Tail(yq), yq[1]) \/ stack # <<>>]_vars
(* trace mode: the register of a trace is set when it is accepted *)
Accept == (Mode = "trace" /\ over) => (pos = Len(Traces[id].log) + 1 => TLCSet(id, 1))
Far == Mode = "trace" => (pos > TLCGet(100000 + id) => TLCSet(100000 + id, pos))
Report == \A n \in 1..Len(Traces) : TLCGet(n) = 1 \/ PrintT("@@" \o ToJson([bad |-> n, at |-> TLCGet(100000 + n)]))
TraceInit == TInit /\ TLCSet(id, 0) /\ TLCSet(100000 + id, 0)
=============================================================================
