----------------------------- MODULE HttpParse -----------------------------
(* One HTTP/1.1 message arriving over a byte stream in arbitrary network    *)
(* reads.  A message is a template (line, header fields, body coding); its   *)
(* wire form is Render(m).  The receiver is an incremental parser: Recv(k)   *)
(* hands it the next k bytes and it consumes as much as it can.              *)
(* Checked: for every message and every segmentation the parser has parsed   *)
(* the head exactly when its last byte has arrived, the body exactly when    *)
(* the last byte of its framing has arrived, and the outcome is the message. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt
CONSTANTS Family,     \* which family of messages to enumerate
          Record      \* TRUE: print one case per message, do not explore segmentations
CRLF == "\r\n"
Ch(s, i) == SubSeq(s, i, i)
Drop(s, n) == SubSeq(s, n + 1, Len(s))
Take(s, n) == SubSeq(s, 1, n)
RECURSIVE Cat(_)
Cat(q) == IF q = <<>> THEN "" ELSE Head(q) \o Cat(Tail(q))
SetMin(S) == CHOOSE x \in S : \A y \in S : x <= y
IndexOf(s, pat) == LET S == {i \in 1..(Len(s) - Len(pat) + 1) : SubSeq(s, i, i + Len(pat) - 1) = pat}
                   IN IF S = {} THEN 0 ELSE SetMin(S)
Upper == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
Lower == "abcdefghijklmnopqrstuvwxyz"
LowerCh(c) == LET i == IndexOf(Upper, c) IN IF i = 0 THEN c ELSE Ch(Lower, i)
RECURSIVE ToLower(_)
ToLower(s) == IF s = "" THEN "" ELSE LowerCh(Ch(s, 1)) \o ToLower(Drop(s, 1))
IsWs(c) == c = " " \/ c = "\t"
RECURSIVE Trim(_)
Trim(s) == IF s = "" THEN "" ELSE IF IsWs(Ch(s, 1)) THEN Trim(Drop(s, 1))
           ELSE IF IsWs(Ch(s, Len(s))) THEN Trim(Take(s, Len(s) - 1)) ELSE s
HexDigits == "0123456789abcdef"
RECURSIVE Num(_, _, _)
Num(s, base, acc) == IF s = "" THEN acc ELSE Num(Drop(s, 1), base, acc * base + IndexOf(HexDigits, LowerCh(Ch(s, 1))) - 1)
RECURSIVE Hex(_)
Hex(n) == IF n < 16 THEN Ch(HexDigits, n + 1) ELSE Hex(n \div 16) \o Ch(HexDigits, (n % 16) + 1)
RECURSIVE UpperS(_)
UpperS(s) == IF s = "" THEN "" ELSE (LET i == IndexOf(Lower, Ch(s, 1)) IN IF i = 0 THEN Ch(s, 1) ELSE Ch(Upper, i)) \o UpperS(Drop(s, 1))
---------------------------------------------------------------------------
\* Messages.  hs: header fields [n: name, s: separator, v: value, w: trailing white space]
\* cod: "none" | "cl" | "ch"; parts: body pieces (chunks); ext: chunk extension; tr: trailer lines; sty: hex style
H(n, s, v, w) == [n |-> n, s |-> s, v |-> v, w |-> w]
Msg(kind, line, hs, cod, parts, ext, tr, sty) ==
    [kind |-> kind, line |-> line, hs |-> hs, cod |-> cod, parts |-> parts, ext |-> ext, tr |-> tr, sty |-> sty]
Body(m) == Cat(m.parts)
HdrLine(h) == h.n \o h.s \o h.v \o h.w \o CRLF
CodHdr(m) == CASE m.cod = "none" -> <<>>
               [] m.cod = "cl" -> <<H("Content-Length", ": ", ToString(Len(Body(m))), "")>>
               [] m.cod = "ch" -> <<H("Transfer-Encoding", ": ", "chunked", "")>>
AllHs(m) == m.hs \o CodHdr(m)
Size(m, n) == CASE m.sty = "lower" -> Hex(n) [] m.sty = "upper" -> UpperS(Hex(n)) [] m.sty = "zeros" -> "00" \o Hex(n)
RenderHead(m) == m.line[1] \o " " \o m.line[2] \o " " \o m.line[3] \o CRLF
                 \o Cat([i \in 1..Len(AllHs(m)) |-> HdrLine(AllHs(m)[i])]) \o CRLF
RenderBody(m) == IF m.cod = "ch"
                 THEN Cat([i \in 1..Len(m.parts) |-> Size(m, Len(m.parts[i])) \o m.ext \o CRLF \o m.parts[i] \o CRLF])
                      \o (IF m.sty = "zeros" THEN "000" ELSE "0") \o m.ext \o CRLF
                      \o Cat([i \in 1..Len(m.tr) |-> m.tr[i] \o CRLF]) \o CRLF
                 ELSE Body(m)
Wire(m) == RenderHead(m) \o RenderBody(m)
Headers(m) == {<<ToLower(AllHs(m)[i].n), AllHs(m)[i].v>> : i \in 1..Len(AllHs(m))}
---------------------------------------------------------------------------
\* Message families
ReqLines == {<<"GET", "/", "HTTP/1.1">>, <<"POST", "/a/b?x=1&y=%20:", "HTTP/1.1">>, <<"DELETE", "/~`", "HTTP/1.0">>}
ResLines == {<<"HTTP/1.1", "200", "OK">>, <<"HTTP/1.1", "404", "Not Found">>, <<"HTTP/1.0", "500", "">>}
Hdrs == {H("Host", ": ", "h", ""), H("x_y-Z@", ":", "V w", ""), H("A", ":\t ", "b: c:d", " \t"), H("Long-Header-Name_", ": ", "", ""),
         H("Q", ": ", "~`,;=\"", "")}
HdrSets == {<<>>} \cup {<<h>> : h \in Hdrs} \cup {<<H("Host", ": ", "h", ""), h>> : h \in Hdrs \ {H("Host", ": ", "h", "")}}
CodSets == {<<"none", <<>> >>}
           \cup {<<"cl", p>> : p \in {<<"">>, <<"x">>, <<"ab\r\n">>, <<"\r\n\r\n">>, <<"0\r\n\r\n">>, <<"GET / HTTP/1.1\r\n\r\n">>, <<"~`\n">>}}
           \cup {<<"ch", p>> : p \in {<<>>, <<"x">>, <<"ab", "c">>, <<"\r\n">>, <<"0\r\n\r\n", "5\r\n">>, <<"0123456789abcdef">>, <<"~`", "\r", "\n">>,
                                     <<"a", "b", "c">>, <<"0123456789abcdefg">>}}
Styles == {<<"", <<>>, "lower">>, <<"", <<>>, "upper">>, <<"", <<>>, "zeros">>, <<";e=1", <<>>, "lower">>, <<"", <<"T: v">>, "lower">>, <<"", <<"T: v", "U:">>, "upper">>}
Lines(k) == IF k = "req" THEN ReqLines ELSE ResLines
Families(k) ==
    [head |-> {Msg(k, l, h, "none", <<>>, "", <<>>, "lower") : l \in Lines(k), h \in HdrSets},
     body |-> {Msg(k, l, <<H("Host", ": ", "h", "")>>, c[1], c[2], "", <<>>, "lower") : l \in {CHOOSE x \in Lines(k) : TRUE}, c \in CodSets}
              \cup {Msg(k, l, <<>>, "ch", c[2], s[1], s[2], s[3]) : l \in {CHOOSE x \in Lines(k) : TRUE}, c \in {x \in CodSets : x[1] = "ch"}, s \in Styles}]
Msgs == CASE Family = "req-head" -> Families("req").head [] Family = "req-body" -> Families("req").body
          [] Family = "res-head" -> Families("res").head [] Family = "res-body" -> Families("res").body
---------------------------------------------------------------------------
\* The incremental parser.  ph: line, hdr, (head complete) cl, csize, cdata, ccrlf, trailer, done, err
S0 == [ph |-> "line", line |-> <<>>, hs |-> {}, body |-> "", rem |-> 0, head |-> FALSE]
Get(hs, n) == LET S == {h \in hs : h[1] = n} IN IF S = {} THEN "" ELSE (CHOOSE h \in S : TRUE)[2]
Has(hs, n) == \E h \in hs : h[1] = n
AfterHead(s) == IF Has(s.hs, "content-length")
                THEN LET n == Num(Get(s.hs, "content-length"), 10, 0) IN [s EXCEPT !.head = TRUE, !.rem = n, !.ph = IF n = 0 THEN "done" ELSE "cl"]
                ELSE IF Has(s.hs, "transfer-encoding") THEN [s EXCEPT !.head = TRUE, !.ph = "csize"]
                ELSE [s EXCEPT !.head = TRUE, !.ph = "done"]
ParseLine(s, l) == LET i == IndexOf(l, " ")  r == Drop(l, i)  j == IndexOf(r, " ")
                   IN IF i = 0 \/ j = 0 THEN [s EXCEPT !.ph = "err"]
                      ELSE [s EXCEPT !.ph = "hdr", !.line = <<Take(l, i - 1), Take(r, j - 1), Drop(r, j)>>]
ParseHdr(s, l) == LET i == IndexOf(l, ":") IN
                  IF l = "" THEN AfterHead(s)
                  ELSE IF i < 2 THEN [s EXCEPT !.ph = "err"]
                  ELSE [s EXCEPT !.hs = @ \cup {<<ToLower(Take(l, i - 1)), Trim(Drop(l, i))>>}]
ParseSize(s, l) == LET i == IndexOf(l, ";")  n == Num(IF i = 0 THEN l ELSE Take(l, i - 1), 16, 0)
                   IN [s EXCEPT !.ph = IF n = 0 THEN "trailer" ELSE "cdata", !.rem = n]
\* consume as much of buf as possible; result <<state, rest of buf>>
RECURSIVE Run(_, _)
Run(s, buf) ==
    IF s.ph \in {"done", "err"} THEN <<s, buf>>
    ELSE IF s.ph \in {"cl", "cdata"} THEN
        LET n == IF Len(buf) < s.rem THEN Len(buf) ELSE s.rem
            t == [s EXCEPT !.body = @ \o Take(buf, n), !.rem = @ - n,
                           !.ph = IF s.rem > n THEN s.ph ELSE IF s.ph = "cl" THEN "done" ELSE "ccrlf"]
        IN IF n = 0 THEN <<s, buf>> ELSE Run(t, Drop(buf, n))
    ELSE IF s.ph = "ccrlf" THEN
        IF Len(buf) < 2 THEN <<s, buf>>
        ELSE IF Take(buf, 2) = CRLF THEN Run([s EXCEPT !.ph = "csize"], Drop(buf, 2)) ELSE <<[s EXCEPT !.ph = "err"], buf>>
    ELSE LET p == IndexOf(buf, CRLF)  l == Take(buf, p - 1)  rest == Drop(buf, p + 1) IN
        IF p = 0 THEN <<s, buf>>
        ELSE CASE s.ph = "line" -> Run(ParseLine(s, l), rest)
               [] s.ph = "hdr" -> Run(ParseHdr(s, l), rest)
               [] s.ph = "csize" -> Run(ParseSize(s, l), rest)
               [] s.ph = "trailer" -> IF l = "" THEN Run([s EXCEPT !.ph = "done"], rest) ELSE Run(s, rest)
---------------------------------------------------------------------------
VARIABLES msg, wire, got, st, buf, eof
vars == <<msg, wire, got, st, buf, eof>>
Init == /\ msg \in Msgs /\ wire = Wire(msg) /\ got = 0 /\ st = S0 /\ buf = "" /\ eof = FALSE
\* one network read of k bytes
Recv(k) == /\ ~eof /\ got + k <= Len(wire)
           /\ LET r == Run(st, buf \o SubSeq(wire, got + 1, got + k)) IN st' = r[1] /\ buf' = r[2]
           /\ got' = got + k /\ UNCHANGED <<msg, wire, eof>>
Eof == /\ ~eof /\ eof' = TRUE /\ st' = (IF st.ph = "done" THEN st ELSE [st EXCEPT !.ph = "err"])
       /\ UNCHANGED <<msg, wire, got, buf>>
HeadLen == Len(RenderHead(msg))
\* body families: cuts inside the head are left to the head families
CutHere(k) == (got = 0 /\ Family \in {"req-body", "res-body"}) => k >= HeadLen - 2
Next == ~Record /\ ((\E k \in 1..(Len(wire) - got) : CutHere(k) /\ Recv(k)) \/ Eof)
Spec == Init /\ [][Next]_vars
---------------------------------------------------------------------------
\* the head is known exactly from its last byte on, and is the head that was sent
HeadPrompt == st.head <=> got >= HeadLen
HeadExact == st.head => st.line = msg.line /\ st.hs = Headers(msg)
\* the body is complete exactly when its framing has arrived; never longer or different before
BodyPrefix == IsPrefix([i \in 1..Len(st.body) |-> Ch(st.body, i)], [i \in 1..Len(Body(msg)) |-> Ch(Body(msg), i)])
BodyPrompt == (~eof) => ((st.ph = "done") <=> got = Len(wire))
BodyExact == st.ph = "done" => st.body = Body(msg) /\ buf = ""
NeverErr == ~eof => st.ph # "err"
CutIsError == (eof /\ got < Len(wire)) => st.ph = "err"
\* segmentation independence: the state is a function of the bytes received so far
Confluent == LET r == Run(S0, Take(wire, got)) IN ~eof => (st = r[1] /\ buf = r[2])
Emit == Record => PrintT("@@" \o ToJson([msg |-> msg, wire |-> wire, headlen |-> HeadLen, body |-> Body(msg),
                                        headers |-> SetToSeq(Headers(msg))]))
=============================================================================
