-------------------------------- MODULE Sse --------------------------------
(* Server-sent events: the pushing side writes lines, the network cuts the       *)
(* characters anywhere, the client assembles lines, fields and events.           *)
(* Values are sequences over "x", "s" (blank), "c" (colon), "n" (newline).       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxEvents, Vals, Whole, Record      \* Whole: reads of any length (FALSE: one or all characters)
V1 == {<<>>, <<"s", "x">>, <<"n">>, <<"x", "n">>, <<"c">>}
V2 == {<<>>, <<"s", "n", "x">>, <<"n">>}
V3 == {<<>>, <<"x">>, <<"s">>, <<"s", "s", "x">>, <<"x", "s">>, <<"n">>, <<"n", "n">>, <<"x", "n", "s", "x">>, <<"n", "x">>, <<"x", "n">>, <<"c">>, <<"x", "c", "x">>, <<"c", "n", "s">>, <<"b">>, <<"b", "n", "b">>}
VARIABLES evs, stream, pos, line, cur, got, st, eof
vars == <<evs, stream, pos, line, cur, got, st, eof>>
(* a field: <<present, value>>; data and event: present iff not empty *)
NoEv == [data |-> <<>>, event |-> <<>>, id |-> <<FALSE, <<>>>>, retry |-> -1]
Events == {e \in [data : Vals, event : Vals, id : {<<FALSE, <<>>>>} \cup {<<TRUE, v>> : v \in {w \in Vals : \A i \in DOMAIN w : w[i] # "n"}}, retry : {-1, 0, 7}] : e # NoEv}
RECURSIVE Lines(_)
Lines(v) == LET i == {j \in DOMAIN v : v[j] = "n"} IN
            IF i = {} THEN <<v>> ELSE LET k == CHOOSE k \in i : \A j \in i : k <= j IN <<SubSeq(v, 1, k - 1)>> \o Lines(SubSeq(v, k + 1, Len(v)))
RECURSIVE Flat(_)
Flat(ls) == IF ls = <<>> THEN <<>> ELSE ls[1] \o Flat(Tail(ls))
Field(name, v) == LET l == Lines(v) IN Flat([i \in DOMAIN l |-> <<name, "c", "s">> \o l[i] \o <<"n">>])
Enc(e) == (IF e.event # <<>> THEN Field("E", e.event) ELSE <<>>) \o (IF e.data # <<>> THEN Field("D", e.data) ELSE <<>>)
          \o (IF e.id[1] THEN Field("I", e.id[2]) ELSE <<>>) \o (IF e.retry >= 0 THEN <<"R", "c", "s", IF e.retry = 0 THEN "0" ELSE "7", "n">> ELSE <<>>) \o <<"n">>
Ping == <<"c", "P", "n", "n">>
Fresh == [data |-> <<>>, nd |-> 0, event |-> <<>>, ne |-> 0, id |-> <<FALSE, <<>>>>, retry |-> -1]
Init == evs = <<>> /\ stream = <<>> /\ pos = 0 /\ line = <<>> /\ cur = Fresh /\ got = <<>> /\ st = "open" /\ eof = FALSE
Push(e) == st = "open" /\ ~eof /\ Len(evs) < MaxEvents /\ evs' = Append(evs, [ping |-> FALSE, e |-> e]) /\ stream' = stream \o Enc(e) /\ UNCHANGED <<pos, line, cur, got, st, eof>>
SendPing == st = "open" /\ ~eof /\ Len(evs) < MaxEvents /\ evs' = Append(evs, [ping |-> TRUE, e |-> NoEv]) /\ stream' = stream \o Ping /\ UNCHANGED <<pos, line, cur, got, st, eof>>
End == st = "open" /\ ~eof /\ evs # <<>> /\ eof' = TRUE /\ UNCHANGED <<evs, stream, pos, line, cur, got, st>>
(* client: one character at a time; the cut positions of the network decide when it may look *)
Strip(v) == IF v # <<>> /\ v[1] = "s" THEN Tail(v) ELSE v
Join(old, cnt, v) == IF cnt = 0 THEN v ELSE old \o <<"n">> \o v
TakeLine(c, l) ==
  IF Len(l) < 2 \/ l[2] # "c" THEN c
  ELSE LET v == Strip(SubSeq(l, 3, Len(l))) IN
       CASE l[1] = "D" -> [c EXCEPT !.data = Join(c.data, c.nd, v), !.nd = @ + 1]
         [] l[1] = "E" -> [c EXCEPT !.event = Join(c.event, c.ne, v), !.ne = @ + 1]
         [] l[1] = "I" -> [c EXCEPT !.id = <<TRUE, v>>]
         [] l[1] = "R" -> [c EXCEPT !.retry = IF v = <<"0">> THEN 0 ELSE 7]
         [] OTHER -> c
Done(c) == [data |-> c.data, event |-> c.event, id |-> c.id, retry |-> c.retry]
RECURSIVE Run(_, _, _, _)
Run(chars, l, c, g) ==      \* the client consumes chars
  IF chars = <<>> THEN <<l, c, g>>
  ELSE IF chars[1] # "n" THEN Run(Tail(chars), Append(l, chars[1]), c, g)
  ELSE IF l = <<>> THEN IF c = Fresh THEN Run(Tail(chars), <<>>, c, g) ELSE Run(Tail(chars), <<>>, Fresh, Append(g, Done(c)))
  ELSE Run(Tail(chars), <<>>, TakeLine(c, l), g)
Recv(k) == /\ st = "open" /\ pos + k <= Len(stream) /\ (Whole \/ k = 1 \/ pos + k = Len(stream))
           /\ LET r == Run(SubSeq(stream, pos + 1, pos + k), line, cur, got) IN line' = r[1] /\ cur' = r[2] /\ got' = r[3]
           /\ pos' = pos + k /\ UNCHANGED <<evs, stream, st, eof>>
Close == st = "open" /\ eof /\ pos = Len(stream) /\ st' = "ended" /\ UNCHANGED <<evs, stream, pos, line, cur, got, eof>>
Next == (\E e \in Events : Push(e)) \/ SendPing \/ End \/ (\E k \in 1..12 : Recv(k)) \/ Close
Spec == Init /\ [][Next]_vars /\ WF_vars(Close) /\ WF_vars(\E k \in 1..12 : Recv(k))
Real == LET r == SelectSeq(evs, LAMBDA x : ~x.ping) IN [i \in DOMAIN r |-> r[i].e]
IsPre(a, b) == Len(a) <= Len(b) /\ \A i \in DOMAIN a : a[i] = b[i]
InOrder == IsPre(got, Real)
Prompt == pos = Len(stream) => got = Real           \* nothing waits for bytes that come later
EndsTogether == eof ~> (st = "ended" /\ got = Real)
(* generation *)
RV == RandomElement(IF Len(evs) >= 0 THEN Vals ELSE {<<>>})
RandomEv == LET i == RandomElement(IF Len(evs) >= 0 THEN {v \in Vals : \A j \in DOMAIN v : v[j] # "n"} ELSE {<<>>})
            IN [data |-> RV, event |-> RV, id |-> RandomElement({<<FALSE, <<>>>>, <<TRUE, i>>}), retry |-> RandomElement({IF Len(evs) >= 0 THEN -1 ELSE 3, 0, 7})]
GNext == \/ \E e \in {RandomEv} : e # NoEv /\ Push(e)
         \/ Len(evs) < MaxEvents /\ SendPing
         \/ Len(evs) >= RandomElement(IF Len(evs) >= 0 THEN 1..MaxEvents ELSE {1}) /\ End
Emit == (Record /\ eof) => PrintT("@@" \o ToJson([evs |-> evs, text |-> stream]))
=============================================================================
