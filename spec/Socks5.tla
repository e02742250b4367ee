------------------------------- MODULE Socks5 -------------------------------
(* The client side of a SOCKS5 dialogue (RFC 1928, RFC 1929) against a proxy  *)
(* that may answer anything, cut its answers short and deliver them in any    *)
(* pieces.  The client is a byte machine: it wants a number of bytes and acts *)
(* when it has them.  The outcome it must reach is also given declaratively   *)
(* (Accepted / the number of messages sent); TLC checks that the machine      *)
(* reaches exactly that outcome whatever the delivery, and leaves every byte  *)
(* behind the last reply in the stream.  Bytes are integers.                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Set
VARIABLES c, \* the case: credentials, target, the proxy's answers
          st, want, got, head, wire, inbox, sent, eof, grain
vars == <<c, st, want, got, head, wire, inbox, sent, eof, grain>>
Rep(n, b) == [i \in 1..n |-> b + (i % 7)]
Name == <<104, 46, 120>>          \* h.x
Local == <<108, 111, 99, 97, 108, 104, 111, 115, 116>>
Ip == <<49, 48, 46, 48, 46, 48, 46, 57>> \* 10.0.0.9
Creds == {<<>>, <<<<117>>, <<112, 119>>>>, <<Rep(255, 97), Rep(255, 98)>>, <<Rep(256, 97), <<112>>>>, <<<<117>>, Rep(300, 99)>>}
Targets == {[h |-> h, p |-> p] : h \in {Name, Local, Ip, Rep(255, 100), Rep(256, 100)}, p \in {0, 80, 443, 8080, 65535}}
\* ------------------------------------------------------ what the proxy says
Method == {<<5, 0>>, <<5, 2>>, <<5, 255>>, <<5, 1>>, <<4, 0>>, <<4, 2>>, <<5>>, <<>>, <<0, 0>>}
AuthRep == {<<1, 0>>, <<1, 1>>, <<1, 255>>, <<5, 0>>, <<0, 0>>, <<1>>, <<>>}
Addr == {<<1>> \o Rep(4, 9), <<3, 0>>, <<3, 1, 65>>, <<3, 13>> \o Rep(13, 70), <<3, 200>> \o Rep(200, 70), <<3, 255>> \o Rep(255, 0), <<4>> \o Rep(16, 240)}
Port == <<31, 144>>
Full(v, r, a) == <<v, r, 0>> \o a \o Port
Cut(s, k) == SubSeq(s, 1, k)
Good == {Full(5, 0, a) : a \in Addr}
Refused == {Full(5, r, a) : r \in {1, 2, 5, 8, 255}, a \in {<<1>> \o Rep(4, 0), <<3, 1, 65>>}} \union {Full(4, 0, <<1>> \o Rep(4, 9)), Full(0, 0, <<1>> \o Rep(4, 9)),
            <<5, 0, 0, 0, 1, 2, 3, 4, 5, 6>>, <<5, 0, 0, 2, 1, 2, 3, 4, 5, 6>>, <<5, 0, 0, 131, 1, 66, 3, 4, 5, 6>>}
Short == UNION {{Cut(s, k) : k \in 0..(Len(s) - 1)} : s \in {Full(5, 0, <<1>> \o Rep(4, 9)), Full(5, 0, <<3, 3>> \o Rep(3, 70)), Full(5, 0, <<4>> \o Rep(16, 240))}}
\* bytes of the target that follow the last reply at once
Glue == {<<>>, <<72>>, <<5, 0, 0, 1, 1, 2>> \o Rep(20, 30)}
Cases ==
    CASE Set = "replies" -> \* every dialogue with a plain target
        {[u |-> u, t |-> [h |-> Name, p |-> 8080], m |-> m, a |-> <<1, 0>>, r |-> r, g |-> g] :
            u \in {<<>>, <<<<117>>, <<112, 119>>>>}, m \in {<<5, 0>>, <<5, 2>>}, r \in Good \union Refused \union Short, g \in Glue}
        \union {[u |-> u, t |-> [h |-> Name, p |-> 80], m |-> m, a |-> a, r |-> Full(5, 0, <<1>> \o Rep(4, 9)), g |-> g] :
            u \in {<<>>, <<<<117>>, <<112, 119>>>>}, m \in Method, a \in AuthRep, g \in {<<>>, <<72>>}}
      [] Set = "targets" -> \* every credential and target with a willing proxy
        {[u |-> u, t |-> t, m |-> IF u = <<>> THEN <<5, 0>> ELSE <<5, 2>>, a |-> <<1, 0>>, r |-> r, g |-> g] :
            u \in Creds, t \in Targets, r \in {Full(5, 0, <<1>> \o Rep(4, 9)), Full(5, 0, <<3, 13>> \o Rep(13, 70))}, g \in {<<>>, <<72, 84>>}}
\* -------------------------------------------------------- what is to be sent
HasCred(x) == x.u # <<>>
CredOk(x) == HasCred(x) => Len(x.u[1]) \in 1..255 /\ Len(x.u[2]) \in 0..255
Hello(x) == <<5, 1, IF HasCred(x) THEN 2 ELSE 0>>
Login(x) == <<1, Len(x.u[1])>> \o x.u[1] \o <<Len(x.u[2])>> \o x.u[2]
Ask(x) == <<5, 1, 0, 3, Len(x.t.h)>> \o x.t.h \o <<x.t.p \div 256, x.t.p % 256>>
\* ----------------------------------------------------- the required outcome
\* How many messages are sent, and whether the tunnel opens.
MethodOk(x) == x.m = <<5, IF HasCred(x) THEN 2 ELSE 0>>
AuthOk(x) == HasCred(x) => x.a = <<1, 0>>
BodyLen(r) == CASE r[4] = 1 -> 4 [] r[4] = 3 -> IF Len(r) >= 5 THEN 1 + r[5] ELSE 1000 [] r[4] = 4 -> 16 [] OTHER -> 1000
ReplyOk(r) == Len(r) >= 4 /\ r[1] = 5 /\ r[2] = 0 /\ r[4] \in {1, 3, 4} /\ Len(r) = 4 + BodyLen(r) + 2
Outcome(x) == IF ~MethodOk(x) THEN <<1, FALSE>>
              ELSE IF ~CredOk(x) THEN <<1, FALSE>>
              ELSE IF ~AuthOk(x) THEN <<2, FALSE>>
              ELSE IF Len(x.t.h) > 255 THEN <<IF HasCred(x) THEN 2 ELSE 1, FALSE>>
              ELSE <<IF HasCred(x) THEN 3 ELSE 2, ReplyOk(x.r)>>
Messages(x) == IF HasCred(x) THEN IF CredOk(x) THEN <<Hello(x), Login(x), Ask(x)>> ELSE <<Hello(x)>> ELSE <<Hello(x), Ask(x)>>
\* ------------------------------------------------------------- the machine
Say(m, answer, open) == /\ sent' = Append(sent, m) /\ wire' = wire \o answer
                        /\ eof' = ~open
Init == /\ c \in Cases /\ grain \in {"byte", "all"}
        /\ st = "method" /\ want = 2 /\ got = <<>> /\ head = <<>> /\ inbox = <<>>
        /\ sent = <<Hello(c)>> /\ wire = c.m /\ eof = (Len(c.m) < 2)
Deliver == /\ wire # <<>> /\ st \notin {"failed", "open"}
           /\ LET k == IF grain = "byte" THEN 1 ELSE Len(wire) IN inbox' = inbox \o SubSeq(wire, 1, k) /\ wire' = SubSeq(wire, k + 1, Len(wire))
           /\ UNCHANGED <<c, st, want, got, head, sent, eof, grain>>
Fail == st' = "failed" /\ UNCHANGED <<wire, sent, eof, want, head>>
Read(n) == st' = st /\ want' = n /\ UNCHANGED <<wire, sent, eof, head>>
AskTarget == IF Len(c.t.h) > 255 THEN Fail
             ELSE st' = "reply" /\ want' = 4 /\ UNCHANGED head /\ Say(Ask(c), c.r \o (IF ReplyOk(c.r) THEN c.g ELSE <<>>), ReplyOk(c.r))
\* g: the bytes wanted have all arrived
Act(g) == CASE st = "method" -> IF g # <<5, IF HasCred(c) THEN 2 ELSE 0>> THEN Fail
                                ELSE IF ~HasCred(c) THEN AskTarget
                                ELSE IF ~CredOk(c) THEN Fail
                                ELSE st' = "auth" /\ want' = 2 /\ UNCHANGED head /\ Say(Login(c), c.a, Len(c.a) >= 2)
            [] st = "auth" -> IF g # <<1, 0>> THEN Fail ELSE AskTarget
            [] st = "reply" -> IF g[1] # 5 \/ g[2] # 0 \/ g[4] \notin {1, 3, 4} THEN Fail
                               ELSE /\ UNCHANGED <<wire, sent, eof>> /\ head' = g
                                    /\ IF g[4] = 3 THEN st' = "namelen" /\ want' = 1 ELSE st' = "bound" /\ want' = (IF g[4] = 1 THEN 6 ELSE 18)
            [] st = "namelen" -> st' = "bound" /\ want' = g[1] + 2 /\ UNCHANGED <<wire, sent, eof, head>>
            [] st = "bound" -> st' = "open" /\ UNCHANGED <<wire, sent, eof, want, head>>
Take == /\ inbox # <<>> /\ st \notin {"failed", "open"}
        /\ LET k == IF want - Len(got) < Len(inbox) THEN want - Len(got) ELSE Len(inbox)
               g == got \o SubSeq(inbox, 1, k) IN
           /\ inbox' = SubSeq(inbox, k + 1, Len(inbox))
           /\ IF Len(g) < want THEN got' = g /\ UNCHANGED <<st, want, head, wire, sent, eof>> ELSE got' = <<>> /\ Act(g)
        /\ UNCHANGED <<c, grain>>
End == /\ inbox = <<>> /\ wire = <<>> /\ eof /\ st \notin {"failed", "open"}
       /\ st' = "failed" /\ UNCHANGED <<c, want, got, head, wire, inbox, sent, eof, grain>>
Done == st \in {"failed", "open"}
Next == Deliver \/ Take \/ End
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
\* --------------------------------------------------------------- properties
SentInOrder == \A i \in DOMAIN sent : sent[i] = Messages(c)[i]
OutcomeIsFixed == Done => (st = "open") = Outcome(c)[2] /\ Len(sent) = Outcome(c)[1]
TunnelIsClean == st = "open" => inbox \o wire = c.g
\* nothing more is sent once a refusal has been received
Monotone == [][Done => UNCHANGED sent]_vars
Ends == <>Done
Emit == (Done /\ grain = "all") => PrintT("@@" \o ToJson([u |-> c.u, h |-> c.t.h, p |-> c.t.p, m |-> c.m, a |-> c.a, r |-> c.r, g |-> IF ReplyOk(c.r) THEN c.g ELSE <<>>,
                                                  sent |-> sent, open |-> st = "open"]))
=============================================================================
