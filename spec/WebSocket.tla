----------------------------- MODULE WebSocket -----------------------------
(* One end of a WebSocket connection.  The peer puts frames on the wire; a     *)
(* frame is three units (first header byte, second header byte, the rest), so  *)
(* every way of splitting the stream around the header is a behaviour.  The    *)
(* application runs a program of receive / send / close operations.            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt
CONSTANTS MaxFrames, MaxOps, Record
\* op: "T" text, "B" binary, "C" continuation, "P" ping, "Q" pong, "X" close; bad: the frame breaks the protocol
Frame(op, fin, bad) == [op |-> op, fin |-> fin, bad |-> bad]
DataFrames == {Frame(o, f, "") : o \in {"T", "B", "C"}, f \in BOOLEAN}
CtlFrames == {Frame(o, TRUE, "") : o \in {"P", "Q", "X"}}
BadFrames == {Frame("T", TRUE, "mask"), Frame("P", TRUE, "mask"), Frame("T", TRUE, "opcode"), Frame("P", TRUE, "big"), Frame("P", FALSE, "frag")}
IsData(f) == f.op \in {"T", "B", "C"}
VARIABLES
  sent,    \* frames the peer has started, in order
  open,    \* the peer is inside a fragmented message
  parts,   \* units of the last frame not yet on the wire
  wire,    \* units on the wire: <<frame index, unit>>
  peer,    \* "up" | "down" (no more data will come)
  prog,    \* operations issued by the application so far
  op,      \* running operation: "" (none) | "recv" | "recvS" (short time limit) | "close"
  pinged,  \* the running receive has sent its own ping and heard nothing since
  cur,     \* units of the current frame read so far: <<frame index, count>>
  frag,    \* partial message: sequence of frame indices
  res,     \* results of completed operations
  outp,    \* frames written
  st,      \* "open" | "closed" (a close frame came, or close was called) | "err"
  hist, n
vars == <<sent, open, parts, wire, peer, prog, op, pinged, cur, frag, res, outp, st, hist, n>>
None == <<0, 0>>
Init == /\ sent = <<>> /\ open = FALSE /\ parts = 0 /\ wire = <<>> /\ peer = "up" /\ prog = <<>> /\ op = "" /\ pinged = FALSE /\ cur = None
        /\ frag = <<>> /\ res = <<>> /\ outp = <<>> /\ st = "open" /\ hist = <<>> /\ n = 0
Log(e) == hist' = (IF Record THEN Append(hist, e) ELSE hist)
Rare == Record => RandomElement(1..15) = 1
Broken(f) == f.bad # "" \/ (IsData(f) /\ (f.op = "C") # open)
\* ---- application
Write(f) == outp' = Append(outp, f)
Issue(o) == /\ op = "" /\ st = "open" /\ Len(prog) < MaxOps /\ n = 0 /\ prog' = Append(prog, o)
            /\ IF o = "send" THEN /\ Write([op |-> "T", k |-> Len(prog) + 1]) /\ res' = Append(res, <<"sent">>) /\ UNCHANGED <<op, st, pinged>>
               ELSE IF o = "close" THEN Write([op |-> "X", k |-> 0]) /\ op' = "close" /\ UNCHANGED <<res, st, pinged>>
               ELSE op' = o /\ pinged' = FALSE /\ UNCHANGED <<outp, res, st>>
            /\ UNCHANGED <<sent, open, parts, wire, peer, cur, frag, hist, n>>
End(r, s) == /\ res' = Append(res, r) /\ op' = "" /\ st' = s
\* the reader takes the next unit; the frame is judged when its header is complete
Reading == op \in {"recv", "recvS", "close"}
U == Head(wire)
F == sent[U[1]]
TakeAny(k) == Reading /\ wire # <<>> /\ U[2] = k /\ wire' = Tail(wire) /\ UNCHANGED <<sent, open, parts, peer, prog, hist, n>>
Take1 == TakeAny(1) /\ cur' = U /\ UNCHANGED <<frag, res, op, st, outp, pinged>>
Take2 == /\ TakeAny(2) /\ cur' = U /\ UNCHANGED <<frag, outp, pinged>>
         /\ IF F.bad # "" \/ (IsData(F) /\ F.op # "C" /\ frag # <<>>) THEN End(<<"err">>, "err") ELSE UNCHANGED <<res, op, st>>
TakeData == /\ TakeAny(3) /\ IsData(F) /\ cur' = None /\ pinged' = FALSE /\ UNCHANGED outp
            /\ LET g == Append(frag, U[1]) IN
               IF ~F.fin THEN frag' = g /\ UNCHANGED <<res, op, st>>
               ELSE /\ frag' = <<>>
                    /\ IF op = "close" THEN End(<<"closed">>, "closed")
                       ELSE IF sent[g[1]].op = "C" THEN End(<<"err">>, "err")
                       ELSE End(<<"msg", sent[g[1]].op, g>>, "open")
TakeCtl == /\ TakeAny(3) /\ ~IsData(F) /\ cur' = None /\ pinged' = FALSE /\ UNCHANGED frag
           /\ IF op = "close" THEN End(<<"closed">>, "closed") /\ UNCHANGED outp
              ELSE IF F.op = "P" THEN Write([op |-> "Q", k |-> U[1]]) /\ UNCHANGED <<res, op, st>>
              ELSE IF F.op = "Q" THEN UNCHANGED <<res, op, st, outp>>
              ELSE Write([op |-> "X", k |-> U[1]]) /\ End(<<"peerclosed">>, "closed")
Take == Take1 \/ Take2 \/ TakeData \/ TakeCtl
\* nothing arrives within the limit of a short receive: one ping goes out
Timeout == /\ op = "recvS" /\ wire = <<>> /\ cur = None /\ peer = "up" /\ ~pinged /\ n = 0 /\ pinged' = TRUE /\ Write([op |-> "P", k |-> 0])
           /\ Log([o |-> "ping"]) /\ UNCHANGED <<sent, open, parts, wire, peer, prog, op, cur, frag, res, st, n>>
Eof == /\ Reading /\ wire = <<>> /\ peer = "down"
       /\ IF op = "close" /\ cur = None THEN End(<<"closed">>, "closed") ELSE End(<<"err">>, "err")
       /\ UNCHANGED <<sent, open, parts, wire, peer, prog, pinged, cur, frag, outp, hist, n>>
Ready == ~ENABLED Take /\ ~ENABLED Eof
\* recorded behaviours let the reader run to the end before the peer acts again: a time-out is then a real silence
PeerTurn == Record => (Ready /\ (op # "" \/ RandomElement(1..3) = 1))
\* ---- the peer again
Start(f, k) == /\ peer = "up" /\ parts = 0 /\ Len(sent) < MaxFrames /\ n = 0
               /\ sent' = Append(sent, f) /\ parts' = 3 - k
               /\ wire' = wire \o [i \in 1..k |-> <<Len(sent) + 1, i>>]
               /\ open' = (IF IsData(f) THEN ~f.fin ELSE open)
               /\ Log([o |-> "frame", i |-> Len(sent) + 1, k |-> k]) /\ UNCHANGED <<peer, prog, op, pinged, cur, frag, res, outp, st, n>>
More == /\ peer = "up" /\ parts > 0 /\ n = 0 /\ parts' = parts - 1 /\ wire' = Append(wire, <<Len(sent), 4 - parts>>)
        /\ Log([o |-> "more", i |-> Len(sent), u |-> 4 - parts]) /\ UNCHANGED <<sent, open, peer, prog, op, pinged, cur, frag, res, outp, st, n>>
Down == /\ peer = "up" /\ n = 0 /\ Rare /\ peer' = "down" /\ Log([o |-> "down"])
        /\ UNCHANGED <<sent, open, parts, wire, prog, op, pinged, cur, frag, res, outp, st, n>>
Draw == RandomElement(IF RandomElement(1..20) = 1 THEN BadFrames \cup {f \in DataFrames : Broken(f)}
                      ELSE IF RandomElement(1..15) = 1 THEN {Frame("X", TRUE, "")}
                      ELSE IF RandomElement(1..3) = 1 THEN {Frame("P", TRUE, ""), Frame("Q", TRUE, "")} ELSE {f \in DataFrames : ~Broken(f)})
PeerFrames == IF Record THEN {Draw} ELSE {Frame("T", TRUE, ""), Frame("T", FALSE, ""), Frame("C", TRUE, ""), Frame("P", TRUE, ""), Frame("Q", TRUE, ""), Frame("X", TRUE, ""), Frame("T", TRUE, "mask")}
Done == st # "open" \/ (op = "" /\ Len(prog) >= MaxOps)
PeerActs == /\ PeerTurn /\ ~(Record /\ Done)
            /\ \/ \E f \in PeerFrames : \E k \in (IF Record THEN {RandomElement({3, 3, 3, 0, 1, 2})} ELSE {1}) : Start(f, k)
               \/ More \/ Down
OpDraw == LET r == RandomElement(1..14) IN IF r = 1 THEN "close" ELSE IF r < 4 THEN "send" ELSE IF r < 6 THEN "recvS" ELSE "recv"
Finish == Record /\ n = 0 /\ Done /\ n' = 1 /\ UNCHANGED <<sent, open, parts, wire, peer, prog, op, pinged, cur, frag, res, outp, st, hist>>
Issues == \E o \in (IF Record THEN {OpDraw} ELSE {"recv", "recvS", "send", "close"}) : Issue(o)
Next == Take \/ Eof \/ Issues \/ PeerActs \/ (PeerTurn /\ Timeout) \/ Finish
Spec == Init /\ [][Next]_vars
FairSpec == Spec /\ WF_vars(Take) /\ WF_vars(Eof)
---------------------------------------------------------------------------
\* what a user relies on, from the frames alone: the messages are the groups of data frames, control frames set aside
Consumed == IF cur # None THEN cur[1] - 1 ELSE IF wire # <<>> THEN wire[1][1] - 1 ELSE IF parts > 0 THEN Len(sent) - 1 ELSE Len(sent)
Data(k) == SelectSeq([i \in 1..k |-> i], LAMBDA i : IsData(sent[i]))
RECURSIVE Groups(_, _)
Groups(d, g) == IF d = <<>> THEN <<>> ELSE IF sent[Head(d)].fin THEN <<Append(g, Head(d))>> \o Groups(Tail(d), <<>>) ELSE Groups(Tail(d), Append(g, Head(d)))
Got == SelectSeq(res, LAMBDA r : r[1] = "msg")
Pre(a, b) == Len(a) <= Len(b) /\ a = SubSeq(b, 1, Len(a))
Exact == LET M == Groups(Data(Consumed), <<>>) G == [i \in 1..Len(Got) |-> Got[i][3]] IN Pre(G, M) /\ (st = "open" /\ op # "close" => G = M)
Types == \A i \in 1..Len(Got) : Got[i][2] = sent[Got[i][3][1]].op
Pings(k) == SelectSeq([i \in 1..k |-> i], LAMBDA i : sent[i].op = "P")
Pongs == LET q == SelectSeq(outp, LAMBDA f : f.op = "Q") IN [i \in 1..Len(q) |-> q[i].k]
PongOnce == Pre(Pongs, Pings(Consumed)) /\ (st = "open" /\ op # "close" => Pongs = Pings(Consumed))
CloseOnce == \A i \in 1..Len(outp) : outp[i].op = "X" => i = Len(outp)
NothingAfterClose == [][st = "closed" => res' = res /\ outp' = outp]_vars
\* a pending receive or close ends once the peer has gone
Ends == (op # "" /\ peer = "down") ~> (op = "")
Emit == n = 1 => PrintT("@@" \o ToJson([sent |-> sent, prog |-> prog, res |-> res, outp |-> outp, hist |-> hist, st |-> st, peer |-> peer]))
=============================================================================
