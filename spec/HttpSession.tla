---------------------------- MODULE HttpSession ----------------------------
(* Keep-alive connections of the server.  Each client pipelines requests (in   *)
(* one or two parts), may stop mid-message, half-close, reset, or send bytes    *)
(* that are no HTTP; the server of each connection parses, dispatches, answers, *)
(* drains an unread body and resets its per-connection context, or closes.      *)
(* The wire is a sequence of units: "h" a head, "b" one half of a body.         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt
CONSTANTS NConn, MaxSend, MaxSteps, Record, Faults
Conns == 1..NConn
\* request shapes: act = what the handler does, cod = body coding, close = connection header asks to close
Shape(m, act, cod, close) == [m |-> m, act |-> act, cod |-> cod, close |-> close]
Shapes == {Shape("GET", "read", "none", FALSE), Shape("POST", "read", "cl", FALSE), Shape("POST", "read", "ch", FALSE),
           Shape("POST", "ignore", "cl", FALSE), Shape("POST", "ignore", "ch", FALSE), Shape("GET", "x", "none", FALSE),
           Shape("HEAD", "ignore", "none", FALSE), Shape("HEAD", "x", "none", FALSE), Shape("HEAD", "missing", "none", FALSE), Shape("HEAD", "close", "none", FALSE),
           Shape("POST", "readx", "cl", FALSE),
           Shape("GET", "missing", "none", FALSE), Shape("POST", "missing", "ch", FALSE),
           Shape("GET", "read", "none", TRUE), Shape("POST", "ignore", "cl", TRUE),
           Shape("GET", "close", "none", FALSE), Shape("POST", "readclose", "ch", FALSE),
           Shape("GET", "throw", "none", FALSE), Shape("POST", "throw2", "cl", FALSE), Shape("POST", "late", "cl", FALSE),
           Shape("GET", "file", "none", FALSE), Shape("HEAD", "file", "none", FALSE), Shape("GET", "range", "none", FALSE), Shape("GET", "norange", "none", FALSE),
           Shape("POST", "chunk", "ch", FALSE), Shape("GET", "chunk", "none", FALSE), Shape("HEAD", "chunk", "none", FALSE), Shape("GET", "sse", "none", FALSE),
           Shape("GET", "cut", "none", FALSE), Shape("POST", "cut", "cl", FALSE),
           Shape("GET", "par", "none", FALSE), Shape("POST", "par", "cl", FALSE), Shape("GET", "wild", "none", FALSE)}
\* handlers after which the server closes (they say so in the answer, or fail)
CloseActs == {"close", "readclose", "throw", "throw2", "late", "sse", "cut"}
\* handlers that fail: before anything is written, or with the answer begun and never finished
FailActs == {"throw", "throw2", "cut"}
\* exhaustive exploration uses a representative subset
Core == {s \in Shapes : s.act = "throw" \/ (s.act = "ignore" /\ s.m # "GET") \/ (s.act = "read" /\ s.cod # "ch")}
Use == IF Record THEN Shapes ELSE Core
Reads(s) == s.act \in {"read", "readx", "readclose"}
VARIABLES
  sent,   \* per connection: requests sent so far (complete or not), [id, shape]
  half,   \* the last request is only partly on the wire: "" | "head" (cut inside the head) | "body" (cut inside the body)
  wire,   \* units not yet consumed by the server: <<kind, id>>
  cl,     \* client side: "open" | "half" (no more data) | "gone"
  ph,     \* server: "idle" (waiting for / parsing a head), "run" (handler), "drain", "closed"
  ctx,    \* request context of the server: [id, h, b] headers id and body units seen
  res,    \* response context: the id that set fields in it, 0 when clean
  out,    \* responses written: [id, m, t, b, r]: t = bytes of a body follow the head
  hist, steps
vars == <<sent, half, wire, cl, ph, ctx, res, out, hist, steps>>
Ctx0 == [id |-> 0, b |-> <<>>]
Init == /\ sent = [c \in Conns |-> <<>>] /\ half = [c \in Conns |-> ""] /\ wire = [c \in Conns |-> <<>>] /\ cl = [c \in Conns |-> "open"]
        /\ ph = [c \in Conns |-> "idle"] /\ ctx = [c \in Conns |-> Ctx0] /\ res = [c \in Conns |-> 0] /\ out = [c \in Conns |-> <<>>]
        /\ hist = <<>> /\ steps = 0
\* recorded behaviours draw faults rarely, so that they get long
FaultNow == Faults /\ (Record => RandomElement(1..9) = 1)
Free == Record => steps < MaxSteps
Tick(e) == /\ steps' = (IF Record THEN steps + 1 ELSE steps) /\ hist' = (IF Record THEN Append(hist, e) ELSE hist)
Units(id, s) == <<<<"h", id>>>> \o (IF s.cod = "none" THEN <<>> ELSE <<<<"b", id>>, <<"B", id>>>>)
ShapeOf(c, id) == sent[c][id].s
NSent == LET S == {<<c, i>> : c \in Conns, i \in 1..MaxSend} IN Cardinality({x \in S : x[2] <= Len(sent[x[1]])})
CanSend(c) == cl[c] = "open" /\ half[c] = "" /\ Len(sent[c]) < MaxSend
\* ---- client
Send(c, s) == /\ Free /\ CanSend(c)
              /\ LET id == Len(sent[c]) + 1 IN
                 /\ sent' = [sent EXCEPT ![c] = Append(@, [id |-> id, s |-> s])]
                 /\ wire' = [wire EXCEPT ![c] = @ \o Units(id, s)]
                 /\ Tick([o |-> "send", c |-> c, id |-> id, s |-> s, part |-> "all"])
              /\ UNCHANGED <<half, cl, ph, ctx, res, out>>
SendPart(c, s, p) ==
              /\ Free /\ CanSend(c) /\ (p = "body" => s.cod # "none")
              /\ LET id == Len(sent[c]) + 1 IN
                 /\ sent' = [sent EXCEPT ![c] = Append(@, [id |-> id, s |-> s])]
                 /\ wire' = [wire EXCEPT ![c] = IF p = "body" THEN @ \o <<<<"h", id>>, <<"b", id>>>> ELSE @]
                 /\ half' = [half EXCEPT ![c] = p]
                 /\ Tick([o |-> "send", c |-> c, id |-> id, s |-> s, part |-> p])
              /\ UNCHANGED <<cl, ph, ctx, res, out>>
SendRest(c) == /\ Free /\ cl[c] = "open" /\ half[c] \in {"head", "body"}
               /\ (half[c] = "body" => Reads(ShapeOf(c, Len(sent[c]))))
               /\ LET id == Len(sent[c]) IN
                  /\ wire' = [wire EXCEPT ![c] = IF half[c] = "body" THEN Append(@, <<"B", id>>) ELSE @ \o Units(id, ShapeOf(c, id))]
                  /\ Tick([o |-> "rest", c |-> c, id |-> id, s |-> ShapeOf(c, id), part |-> half[c]])
               /\ half' = [half EXCEPT ![c] = ""] /\ UNCHANGED <<sent, cl, ph, ctx, res, out>>
SendBad(c, k) == /\ Free /\ FaultNow /\ cl[c] = "open" /\ half[c] = ""
              /\ wire' = [wire EXCEPT ![c] = Append(@, <<"bad", 0>>)] /\ half' = [half EXCEPT ![c] = "bad"]
              /\ Tick([o |-> "bad", c |-> c, k |-> k]) /\ UNCHANGED <<sent, cl, ph, ctx, res, out>>
HalfClose(c) == /\ Free /\ FaultNow /\ cl[c] = "open" /\ cl' = [cl EXCEPT ![c] = "half"] /\ Tick([o |-> "shut", c |-> c])
                /\ UNCHANGED <<sent, half, wire, ph, ctx, res, out>>
Reset(c) == /\ Free /\ FaultNow /\ cl[c] # "gone" /\ cl' = [cl EXCEPT ![c] = "gone"] /\ Tick([o |-> "rst", c |-> c])
            /\ UNCHANGED <<sent, half, wire, ph, ctx, res, out>>
\* ---- server
Take(c) == wire' = [wire EXCEPT ![c] = Tail(@)]
Close(c) == ph' = [ph EXCEPT ![c] = "closed"]
Silent == UNCHANGED <<hist, steps>>
ParseHead(c) == /\ ph[c] = "idle" /\ wire[c] # <<>> /\ Head(wire[c])[1] = "h" /\ Take(c)
                /\ ctx' = [ctx EXCEPT ![c].id = IF @ = 0 THEN Head(wire[c])[2] ELSE -1] /\ ph' = [ph EXCEPT ![c] = "run"]
                /\ UNCHANGED <<sent, half, cl, res, out>> /\ Silent
\* a unit that is not a head where a head is due, or bytes that are no HTTP: the connection ends
BadHead(c) == /\ ph[c] = "idle" /\ wire[c] # <<>> /\ Head(wire[c])[1] # "h" /\ Take(c) /\ Close(c)
              /\ UNCHANGED <<sent, half, cl, ctx, res, out>> /\ Silent
BodyDone(c, s) == s.cod = "none" \/ \E i \in 1..Len(ctx[c].b) : ctx[c].b[i][1] = "B"
ReadBody(c) == /\ ph[c] \in {"run", "drain"} /\ LET s == ShapeOf(c, ctx[c].id) IN
                 /\ ~BodyDone(c, s) /\ (ph[c] = "run" => Reads(s))
                 /\ wire[c] # <<>> /\ Take(c) /\ ctx' = [ctx EXCEPT ![c].b = Append(@, Head(wire[c]))]
               /\ UNCHANGED <<sent, half, cl, ph, res, out>> /\ Silent
Answer(c) == /\ ph[c] = "run" /\ LET s == ShapeOf(c, ctx[c].id) IN
               /\ Reads(s) => BodyDone(c, s)
               /\ IF s.act \in FailActs THEN Close(c) /\ UNCHANGED <<out, res>> /\ Silent
                  ELSE /\ out' = [out EXCEPT ![c] = Append(@, [id |-> ctx[c].id, m |-> s.m, t |-> s.m # "HEAD", b |-> IF Reads(s) THEN ctx[c].b ELSE <<>>, r |-> res[c]])]
                       /\ IF s.close \/ s.act \in CloseActs THEN Close(c) ELSE ph' = [ph EXCEPT ![c] = "drain"]
                       /\ res' = [res EXCEPT ![c] = ctx[c].id]
                       /\ hist' = (IF Record THEN Append(hist, [o |-> "resp", c |-> c, id |-> ctx[c].id]) ELSE hist) /\ steps' = steps
             /\ UNCHANGED <<sent, half, wire, cl, ctx>>
Clear(c) == /\ ph[c] = "drain" /\ BodyDone(c, ShapeOf(c, ctx[c].id))
            /\ ctx' = [ctx EXCEPT ![c] = Ctx0] /\ res' = [res EXCEPT ![c] = 0] /\ ph' = [ph EXCEPT ![c] = "idle"]
            /\ UNCHANGED <<sent, half, wire, cl, out>> /\ Silent
\* nothing more will come (the peer closed), or an unread body does not come within the drain limit
Waiting(c) == /\ wire[c] = <<>> /\ IF ph[c] = "idle" THEN TRUE
                                   ELSE IF ph[c] = "closed" THEN FALSE
                                   ELSE LET s == ShapeOf(c, ctx[c].id) IN ~BodyDone(c, s) /\ (ph[c] = "run" => Reads(s))
PeerGone(c) == /\ Waiting(c) /\ cl[c] # "open" /\ Close(c) /\ UNCHANGED <<sent, half, wire, cl, ctx, res, out>> /\ Silent
\* a part-sent body that the handler does not read is never completed by the client (see SendRest)
DrainTimeout(c) == /\ Waiting(c) /\ ph[c] = "drain" /\ Close(c) /\ UNCHANGED <<sent, half, wire, cl, ctx, res, out>> /\ Silent
Server(c) == ParseHead(c) \/ BadHead(c) \/ ReadBody(c) \/ Answer(c) \/ Clear(c) \/ PeerGone(c) \/ DrainTimeout(c)
BadKinds == IF Record THEN 1..12 ELSE {1}
Pick(S) == IF Record THEN {RandomElement(S), RandomElement(S)} ELSE S
Client(c) == \/ \E s \in Pick(Use) : Send(c, s) \/ \E p \in {"head", "body"} : SendPart(c, s, p)
             \/ SendRest(c) \/ (\E k \in Pick(BadKinds) : SendBad(c, k)) \/ HalfClose(c) \/ Reset(c)
Quiet == \A c \in Conns : ~ENABLED Server(c)
Finish == Record /\ steps >= 6 /\ steps <= MaxSteps /\ Quiet /\ steps' = MaxSteps + 1 /\ hist' = hist
          /\ UNCHANGED <<sent, half, wire, cl, ph, ctx, res, out>>
Next == (steps <= MaxSteps /\ \E c \in Conns : Client(c) \/ Server(c)) \/ Finish
Spec == Init /\ [][Next]_vars
FairSpec == Spec /\ \A c \in Conns : WF_vars(Server(c))
---------------------------------------------------------------------------
\* H03: responses answer the requests in order, each exactly once, seeing only its own request
InOrder == \A c \in Conns : \A i \in 1..Len(out[c]) : out[c][i].id = i
OwnBody == \A c \in Conns : \A i \in 1..Len(out[c]) : LET s == sent[c][i].s IN
             out[c][i].b = IF Reads(s) /\ s.cod # "none" THEN <<<<"b", i>>, <<"B", i>>>> ELSE <<>>
\* the answer to HEAD is a head alone: what follows on the wire is the next answer
HeadAlone == \A c \in Conns : \A i \in 1..Len(out[c]) : out[c][i].t = (sent[c][i].s.m # "HEAD")
Clean == \A c \in Conns : \A i \in 1..Len(out[c]) : out[c][i].r = 0
\* H04: the server closes only for a reason
Reason(c) == \/ cl[c] # "open" \/ half[c] = "bad" \/ (half[c] = "body" /\ ~Reads(ShapeOf(c, Len(sent[c]))))
             \/ \E i \in 1..Len(sent[c]) : sent[c][i].s.close \/ sent[c][i].s.act \in CloseActs
CloseForReason == \A c \in Conns : ph[c] = "closed" => Reason(c)
NoMoreAfterClose == [][\A c \in Conns : ph[c] = "closed" => out'[c] = out[c] /\ ph'[c] = "closed"]_vars
\* every complete request before a closing one is answered (liveness; other connections play no part)
Closing(s) == s.close \/ s.act \in CloseActs
Answerable(c) == LET K == {i \in 1..Len(sent[c]) : \A j \in 1..(i - 1) : ~Closing(sent[c][j].s)}
                     C == {i \in K : i < Len(sent[c]) \/ half[c] \in {"", "bad"}}
                 IN Cardinality({i \in C : sent[c][i].s.act \notin FailActs})
EventuallyAnswered == \A c \in Conns : []<>(Len(out[c]) >= Answerable(c))
EventuallyClosed == \A c \in Conns : (cl[c] # "open" \/ half[c] = "bad") ~> (ph[c] = "closed")
Emit == (Record /\ steps = MaxSteps + 1) => PrintT("@@" \o ToJson([hist |-> hist, sent |-> sent, half |-> half, cl |-> cl, out |-> out, ph |-> ph,
         cut |-> [c \in Conns |-> ph[c] = "closed" /\ ctx[c].id > 0 /\ ShapeOf(c, ctx[c].id).act = "cut"]]))
=============================================================================
