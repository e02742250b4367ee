-------------------------------- MODULE Url --------------------------------
(* A URL is scheme "://" [user [":" password] "@"] host [":" port] [path]     *)
(* ["?" query].  Read decomposes a text; TLC checks that it inverts Compose   *)
(* for all parts, and that on arbitrary texts what it returns composes back.  *)
(* Texts are sequences of characters.                                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Mode, MaxLen
VARIABLES done, p, t
vars == <<done, p, t>>
S(str) == [i \in 1..Len(str) |-> SubSeq(str, i, i)]
RECURSIVE Find(_, _, _)
\* first position >= i of a character of set C, Len(s) + 1 when there is none
Find(s, C, i) == IF i > Len(s) THEN i ELSE IF s[i] \in C THEN i ELSE Find(s, C, i + 1)
RECURSIVE RFind(_, _, _)
RFind(s, c, i) == IF i = 0 THEN 0 ELSE IF s[i] = c THEN i ELSE RFind(s, c, i - 1)
Digit == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
HostCh == Digit \union {"a", "b", "c", "o", "l", "h", "s", "t", "x", "-"}
\* --------------------------------------------------------------- parts
Parts(sc, us, pw, h, po, pa, q) == [sc |-> sc, us |-> us, pw |-> pw, h |-> h, po |-> po, pa |-> pa, q |-> q]
None == <<"none">>
Compose(x) == S(x.sc) \o S("://") \o (IF x.us = None THEN <<>> ELSE x.us \o (IF x.pw = None THEN <<>> ELSE <<":">> \o x.pw) \o <<"@">>)
              \o x.h \o (IF x.po = None THEN <<>> ELSE <<":">> \o x.po) \o x.pa \o (IF x.q = None THEN <<>> ELSE <<"?">> \o x.q)
Schemes == {"http", "https", "ws", "wss", "ftp", "ssh"}
Users == {None, S("u"), S("u.v.com"), S("u-1"), <<>>}
Pass == {None, S("p"), S("p:q"), S("a.b:80"), <<>>}
Hosts == {S("localhost"), S("a"), S("a.b"), S("127.0.0.1"), S("x-1.y.com"), S("a.b.c.d.e")}
Ports == {None, S("80"), S("0"), S("28205"), S("65535"), S("0443"), <<>>}
Paths == {<<>>, S("/"), S("/a"), S("/a/b.c/"), S("/u:p@h.com:1/x"), S("/a@b"), S("/x:1"), S("//"), S("/http://c.d/e")}
Queries == {None, <<>>, S("a=b"), S("u=http://x.y:9/z@w"), S("@"), S(":8"), S("/"), S("?")}
\* --------------------------------------------------------------- reading
ReadAuth(sc, au, pa, q) ==
    LET at == RFind(au, "@", Len(au))
        ui == SubSeq(au, 1, at - 1)
        m == Find(ui, {":"}, 1)
        hp == SubSeq(au, at + 1, Len(au))
        c == Find(hp, {":"}, 1) IN
    Parts(sc, IF at = 0 THEN None ELSE SubSeq(ui, 1, m - 1), IF at = 0 \/ m > Len(ui) THEN None ELSE SubSeq(ui, m + 1, Len(ui)),
          SubSeq(hp, 1, c - 1), IF c > Len(hp) THEN None ELSE SubSeq(hp, c + 1, Len(hp)), pa, q)
Read(sc, s) == \* s: the text after "scheme://"
    LET e == Find(s, {"/", "?"}, 1)  r == SubSeq(s, e, Len(s))  qp == Find(r, {"?"}, 1) IN
    ReadAuth(sc, SubSeq(s, 1, e - 1), SubSeq(r, 1, qp - 1), IF qp > Len(r) THEN None ELSE SubSeq(r, qp + 1, Len(r)))
RECURSIVE Labels(_)
Labels(h) == LET d == Find(h, {"."}, 1) IN IF d > Len(h) THEN <<h>> ELSE <<SubSeq(h, 1, d - 1)>> \o Labels(SubSeq(h, d + 1, Len(h)))
HostOk(h) == \A i \in DOMAIN Labels(h) : Labels(h)[i] # <<>> /\ Labels(h)[i][1] # "-" /\ \A j \in DOMAIN Labels(h)[i] : Labels(h)[i][j] \notin {":", "@", "/", "?"}
RECURSIVE Num(_, _)
Num(d, acc) == IF d = <<>> THEN acc ELSE Num(Tail(d), acc * 10 + (CHOOSE n \in 0..9 : ToString(n) = d[1]))
PortOk(po) == po = None \/ (\A i \in DOMAIN po : po[i] \in Digit)
UserOk(x) == x.us = None \/ ((\A i \in DOMAIN x.us : x.us[i] # "@") /\ (x.pw = None \/ \A i \in DOMAIN x.pw : x.pw[i] # "@"))
Valid(x) == HostOk(x.h) /\ PortOk(x.po) /\ UserOk(x)
\* --------------------------------------------------------------- what must be extracted
Default(sc) == CASE sc \in {"http", "ws"} -> 80 [] sc \in {"https", "wss"} -> 443 [] sc = "ftp" -> 21 [] OTHER -> 22
Port(x) == IF x.po \in {None, <<>>} THEN Default(x.sc) ELSE IF Len(x.po) > 6 THEN 99999 ELSE Num(x.po, 0)
Want(x) == [u |-> Compose(x), sc |-> x.sc, user |-> IF x.us = None THEN <<>> ELSE <<x.us, IF x.pw = None THEN <<>> ELSE x.pw>>,
            h |-> x.h, port |-> Port(x), pa |-> (IF x.pa = <<>> THEN <<"/">> ELSE x.pa) \o (IF x.q = None THEN <<>> ELSE <<"?">> \o x.q),
            or |-> Compose([x EXCEPT !.pa = <<>>, !.q = None])]
Alphabet == {"a", "1", ".", ":", "@", "/", "?"}
Init == done = FALSE /\
        CASE Mode = "parts" -> /\ p \in [sc : Schemes, us : Users, pw : Pass, h : Hosts, po : Ports, pa : Paths, q : Queries]
                               /\ (p.us = None => p.pw = None) /\ t = <<>>
          [] Mode = "few" -> /\ \/ p \in [sc : {"http", "wss"}, us : {None, S("u.v.com")}, pw : {None, S("p:q")}, h : {S("localhost"), S("127.0.0.1")},
                                          po : Ports, pa : Paths, q : Queries]
                                \/ p \in [sc : Schemes, us : Users, pw : Pass, h : Hosts, po : Ports, pa : {<<>>, S("/u:p@h.com:1/x")}, q : {None, S("u=http://x.y:9/z@w")}]
                             /\ (p.us = None => p.pw = None) /\ t = <<>>
          [] OTHER -> p = 0 /\ t = <<>>
Grow == Mode = "texts" /\ Len(t) < MaxLen /\ \E c \in Alphabet : t' = Append(t, c) /\ UNCHANGED <<done, p>>
Next == Grow
Spec == Init /\ [][Next]_vars
Inverts == Mode # "texts" => (Read(p.sc, SubSeq(Compose(p), Len(p.sc) + 4, Len(Compose(p)))) = p /\ Valid(p))
Recomposes == Mode = "texts" => LET x == Read("http", t) IN Compose(x) = S("http://") \o t
Emit == IF Mode # "texts" THEN PrintT("@@" \o ToJson(Want(p)))
        ELSE LET x == Read("http", t) IN /\ Valid(x) => PrintT("@@" \o ToJson(Want(x)))
                                         /\ (t # <<>> /\ t[1] = "/") => PrintT("@@" \o ToJson([u |-> t, path |-> TRUE]))
=============================================================================
