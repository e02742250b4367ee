----------------------------- MODULE HttpWriter -----------------------------
(* The message writers: what an application sets with the setter calls of a      *)
(* response (or request), what goes out on the wire (as tokens), and an          *)
(* independent HTTP decoder that has to recover exactly what was set.            *)
(* Body content may look like framing: "nl" is CRLF, "z" is the text "0".        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Side,      \* "res" or "req"
          MaxMsgs, MaxOps, Ks, Vs, Record
NL == [t |-> "nl", x |-> 0, y |-> 0]
Tok(t) == [t |-> t, x |-> 0, y |-> 0]
Bodies == { <<>>, <<Tok("a")>>, <<NL>>, <<Tok("z"), NL, NL>>, <<NL, NL, Tok("line"), NL>>, <<Tok("a"), NL, Tok("sz"), Tok("a")>> }
VARIABLES line, hdr, body, head,      \* what is set for the current message
          file, left, first,          \* file being transferred, rest of it, no chunk written yet
          phase,                      \* "set" | "chunk" | "done"
          used,                       \* how the current message went out: "no" | "send" | "file"
          wire, sent, nops, prog, msgs
vars == <<line, hdr, body, head, file, left, first, phase, used, wire, sent, nops, prog, msgs>>
None == [k \in Ks |-> 0]
Init == /\ line = 0 /\ hdr = None /\ body = <<>> /\ head = FALSE /\ file = <<>> /\ left = <<>> /\ first = TRUE /\ phase = "set" /\ used = "no"
        /\ wire = <<>> /\ sent = <<>> /\ nops = 0 /\ prog = <<>> /\ msgs = 0
Log(e) == /\ prog' = IF Record THEN Append(prog, e) ELSE prog
          /\ nops' = nops + 1
Setting == phase = "set" /\ nops < MaxOps /\ msgs < MaxMsgs
SetLine(s) == Setting /\ line' = s /\ Log([o |-> "line", s |-> s]) /\ UNCHANGED <<hdr, body, head, file, left, first, phase, used, wire, sent, msgs>>
(* how = "set": the last value wins; "try": an already present value stays *)
AddHeader(k, v, how) ==
  /\ Setting
  /\ hdr' = [hdr EXCEPT ![k] = IF how = "set" \/ @ = 0 THEN v ELSE @]
  /\ Log([o |-> "hdr", k |-> k, v |-> v, how |-> how])
  /\ UNCHANGED <<line, body, head, file, left, first, phase, used, wire, sent, msgs>>
SetBody(b) == Setting /\ body' = b /\ Log([o |-> "body", b |-> b]) /\ UNCHANGED <<line, hdr, head, file, left, first, phase, used, wire, sent, msgs>>
SetHead == Side = "res" /\ Setting /\ ~head /\ head' = TRUE /\ Log([o |-> "head"]) /\ UNCHANGED <<line, hdr, body, file, left, first, phase, used, wire, sent, msgs>>
RECURSIVE HdrToks(_)
HdrToks(S) == IF S = {} THEN <<>> ELSE LET k == CHOOSE k \in S : \A j \in S : k <= j IN <<[t |-> "h", x |-> k, y |-> hdr[k]], NL>> \o HdrToks(S \ {k})
Head1 == <<[t |-> "line", x |-> line, y |-> 0], NL>> \o HdrToks({k \in Ks : hdr[k] # 0})
Want(b) == [line |-> line, hdr |-> hdr, body |-> b, head |-> head]
Send == /\ Setting /\ line # 0
        /\ wire' = wire \o Head1
             \o (IF Side = "req" /\ body = <<>> THEN <<>> ELSE <<[t |-> "cl", x |-> Len(body), y |-> 0], NL>>) \o <<NL>> \o (IF head THEN <<>> ELSE body)
        /\ sent' = Append(sent, Want(body)) /\ msgs' = msgs + 1
        /\ phase' = "done" /\ used' = "send" /\ Log([o |-> "send"])
        /\ UNCHANGED <<line, hdr, body, head, file, left, first>>
(* the same object may send again (nothing is reset), or be cleared *)
Again == phase = "done" /\ Side = "res" /\ used = "send" /\ phase' = "set" /\ UNCHANGED <<line, hdr, body, head, file, left, first, used, wire, sent, nops, prog, msgs>>
Clear == /\ phase = "done" /\ nops < MaxOps /\ line' = 0 /\ hdr' = None /\ body' = <<>> /\ head' = FALSE /\ file' = <<>> /\ left' = <<>> /\ first' = TRUE /\ phase' = "set" /\ used' = "no"
         /\ Log([o |-> "clear"]) /\ UNCHANGED <<wire, sent, msgs>>
(* chunked transfer of a file; a response sets its own line *)
StartChunk(f) ==
  /\ Setting /\ (Side = "req" => line # 0) /\ body = <<>> /\ used = "no"
  /\ LET l == IF Side = "res" THEN 1 ELSE line IN
     /\ line' = l
     /\ wire' = wire \o <<[t |-> "line", x |-> l, y |-> 0], NL>> \o HdrToks({k \in Ks : hdr[k] # 0}) \o <<Tok("te"), NL, NL>>
     /\ sent' = Append(sent, [line |-> l, hdr |-> hdr, body |-> f, head |-> head])
  /\ file' = f /\ left' = f /\ first' = TRUE /\ msgs' = msgs + 1
  /\ phase' = IF head THEN "done" ELSE "chunk"
  /\ used' = "file"
  /\ Log([o |-> "file", f |-> f])
  /\ UNCHANGED <<hdr, body, head>>
Chunk(n) ==      \* one read of the file gives n tokens
  /\ phase = "chunk" /\ n \in 1..Len(left)
  /\ wire' = wire \o (IF first THEN <<>> ELSE <<NL>>) \o <<[t |-> "sz", x |-> n, y |-> 0], NL>> \o SubSeq(left, 1, n)
  /\ left' = SubSeq(left, n + 1, Len(left)) /\ first' = FALSE
  /\ UNCHANGED <<line, hdr, body, head, file, phase, used, sent, nops, prog, msgs>>
ChunkEnd ==
  /\ phase = "chunk" /\ left = <<>>
  /\ wire' = wire \o (IF first THEN <<>> ELSE <<NL>>) \o <<[t |-> "sz", x |-> 0, y |-> 0], NL, NL>>
  /\ phase' = "done"
  /\ UNCHANGED <<line, hdr, body, head, file, left, first, used, sent, nops, prog, msgs>>
Next == \/ \E s \in {1, 2} : SetLine(s)
        \/ \E k \in Ks, v \in Vs, how \in IF Side = "req" THEN {"set", "try"} ELSE {"set"} : AddHeader(k, v, how)
        \/ \E b \in Bodies : SetBody(b)
        \/ SetHead \/ Send \/ Again \/ Clear
        \/ \E f \in Bodies : StartChunk(f)
        \/ \E n \in 1..4 : Chunk(n)
        \/ ChunkEnd
Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------
(* The decoder: knows nothing of the writer, except which messages answer HEAD. *)
RECURSIVE DHdr(_, _, _), DChunk(_, _)
Bad == [ok |-> FALSE]
DHdr(w, h, fr) ==      \* -> [ok, hdr, fr, rest]
  IF w = <<>> THEN Bad
  ELSE IF w[1].t = "nl" THEN [ok |-> TRUE, hdr |-> h, fr |-> fr, rest |-> Tail(w)]
  ELSE IF Len(w) < 2 \/ w[2].t # "nl" THEN Bad
  ELSE IF w[1].t = "h" THEN IF h[w[1].x] # 0 THEN Bad ELSE DHdr(SubSeq(w, 3, Len(w)), [h EXCEPT ![w[1].x] = w[1].y], fr)
  ELSE IF w[1].t = "cl" /\ fr.k = "none" THEN DHdr(SubSeq(w, 3, Len(w)), h, [k |-> "cl", n |-> w[1].x])
  ELSE IF w[1].t = "te" /\ fr.k = "none" THEN DHdr(SubSeq(w, 3, Len(w)), h, [k |-> "te", n |-> 0])
  ELSE Bad
DChunk(w, b) ==
  IF Len(w) < 2 \/ w[1].t # "sz" \/ w[2].t # "nl" THEN Bad
  ELSE LET n == w[1].x  IN
       IF n = 0 THEN IF Len(w) >= 3 /\ w[3].t = "nl" THEN [ok |-> TRUE, body |-> b, rest |-> SubSeq(w, 4, Len(w))] ELSE Bad
       ELSE IF Len(w) < n + 3 \/ w[n + 3].t # "nl" THEN Bad
       ELSE DChunk(SubSeq(w, n + 4, Len(w)), b \o SubSeq(w, 3, n + 2))
DOne(w, hd) ==
  IF Len(w) < 2 \/ w[1].t # "line" \/ w[2].t # "nl" THEN Bad
  ELSE LET h == DHdr(SubSeq(w, 3, Len(w)), None, [k |-> "none", n |-> 0]) IN
       IF ~h.ok THEN Bad
       ELSE IF hd THEN [ok |-> TRUE, line |-> w[1].x, hdr |-> h.hdr, body |-> <<>>, rest |-> h.rest]
       ELSE IF h.fr.k = "te" THEN LET c == DChunk(h.rest, <<>>) IN IF ~c.ok THEN Bad ELSE [ok |-> TRUE, line |-> w[1].x, hdr |-> h.hdr, body |-> c.body, rest |-> c.rest]
       ELSE IF Side = "res" /\ h.fr.k = "none" THEN Bad
       ELSE IF Len(h.rest) < h.fr.n THEN Bad
       ELSE [ok |-> TRUE, line |-> w[1].x, hdr |-> h.hdr, body |-> SubSeq(h.rest, 1, h.fr.n), rest |-> SubSeq(h.rest, h.fr.n + 1, Len(h.rest))]
RECURSIVE DAll(_, _)
DAll(w, hs) == IF hs = <<>> THEN w = <<>>
               ELSE LET d == DOne(w, hs[1].head) IN
                    d.ok /\ d.line = hs[1].line /\ d.hdr = hs[1].hdr /\ (hs[1].head \/ d.body = hs[1].body) /\ DAll(d.rest, Tail(hs))
(* every complete output decodes to what the application set, with no byte in between *)
RoundTrip == phase # "chunk" => DAll(wire, sent)
Emit == (Record /\ phase = "done" /\ (msgs >= 2 \/ nops >= MaxOps)) => PrintT("@@" \o ToJson([prog |-> prog, sent |-> sent]))
=============================================================================
