--------------------------------- MODULE Tls ---------------------------------
(* Connections over TLS that share one thread.  Each endpoint exchanges        *)
(* records with a peer over a byte stream that arrives in units (a record is   *)
(* two units), through a pair of bounded buffers.  Peers shake hands, write,   *)
(* read, close orderly, are cut inside or between records, send garbage or     *)
(* fall silent.  Expected(...) says declaratively what each operation must     *)
(* give; TLC checks that the machine gives exactly that in every interleaving, *)
(* that every byte arrives once and in order in both directions, that no       *)
(* operation is stuck once its peer has acted, and that what happens to a      *)
(* connection depends on its own peer only.                                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS NC, MaxSteps, Cap, Sizes, Keep
VARIABLES st,    \* "new" | "open" | "over"
          op,    \* the operation under way: [k, left, how] ; k = "none": none
          in,    \* units on the way to the endpoint
          shut,  \* no units will follow
          bio,   \* units taken in, not yet a whole record
          plain, \* decrypted and not yet handed out
          got,   \* handed out
          out,   \* encrypted and not yet on the stream
          peer,  \* records the peer has received
          todo,  \* what the peer will still do
          res,   \* result of each operation
          log    \* the operations, in order
vars == <<st, op, in, shut, bio, plain, got, out, peer, todo, res, log>>
C == 1..NC
None == [k |-> "none", left |-> 0, n |-> 0, how |-> ""]
\* ------------------------------------------------------------ the operations
HsHow == {"ok", "garbage", "plain", "cut", "silent"}
EndHow == {"notify", "notifycut", "cut", "cutin", "garbage", "damage", "rst", "silent"}
Steps(s) == IF s = "new" THEN {[k |-> "hs", n |-> 0, m |-> 0, how |-> h] : h \in HsHow}
            ELSE IF s = "open" THEN {[k |-> "pw", n |-> n, m |-> 0, how |-> ""] : n \in Sizes \ {0}}
                                    \union {[k |-> "ew", n |-> 0, m |-> m, how |-> ""] : m \in Sizes}
                                    \union {[k |-> "bw", n |-> n, m |-> m, how |-> ""] : n \in Sizes \ {0}, m \in Sizes \ {0}}
                                    \union {[k |-> "end", n |-> 0, m |-> 0, how |-> h] : h \in EndHow}
            ELSE {}
Expected(x) == CASE x.k = "hs" -> IF x.how = "ok" THEN "ok" ELSE "over"
                 [] x.k \in {"pw", "ew", "bw"} -> "ok"
                 [] x.k = "end" -> IF x.how = "silent" THEN "timeout" ELSE "over"
After(x) == IF Expected(x) = "ok" THEN "open" ELSE "over"
\* what the peer puts on the stream for it: units [t, e]: type, last of its record; "shut" ends the stream
U(t, e) == [t |-> t, e |-> e]
Rec(t) == <<U(t, FALSE), U(t, TRUE)>>
RECURSIVE Recs(_)
Recs(n) == IF n = 0 THEN <<>> ELSE Rec("data") \o Recs(n - 1)
Shut == <<U("shut", TRUE)>>
Peer(x) == CASE x.k = "hs" -> (CASE x.how = "ok" -> Rec("hello") [] x.how \in {"garbage", "plain"} -> Rec("bad") [] x.how = "cut" -> <<U("hello", FALSE)>> \o Shut [] OTHER -> <<>>)
             [] x.k = "pw" -> Recs(x.n) [] x.k = "ew" -> <<>> [] x.k = "bw" -> Recs(x.n)
             [] x.k = "end" -> (CASE x.how = "notify" -> Rec("notify") [] x.how = "notifycut" -> Rec("notify") \o Shut [] x.how \in {"cut", "rst"} -> Shut
                                  [] x.how = "cutin" -> <<U("data", FALSE)>> \o Shut [] x.how \in {"garbage", "damage"} -> Rec("bad") [] OTHER -> <<>>)
\* ----------------------------------------------------------------- behaviour
Init == /\ st = [c \in C |-> "new"] /\ op = [c \in C |-> None] /\ in = [c \in C |-> <<>>] /\ shut = [c \in C |-> FALSE] /\ bio = [c \in C |-> <<>>]
        /\ plain = [c \in C |-> 0] /\ got = [c \in C |-> 0] /\ out = [c \in C |-> 0] /\ peer = [c \in C |-> 0]
        /\ todo = [c \in C |-> <<>>] /\ res = [c \in C |-> <<>>] /\ log = <<>>
Of(c) == SelectSeq(log, LAMBDA x : x.c = c)
Begin(c) == /\ op[c].k = "none" /\ Len(log) < MaxSteps
            /\ \E x \in Steps(st[c]) :
                 /\ op' = [op EXCEPT ![c] = [k |-> IF x.m > 0 THEN "send" ELSE IF x.k = "ew" THEN "done" ELSE "recv", left |-> x.m, n |-> x.n, how |-> x.how]]
                 /\ todo' = [todo EXCEPT ![c] = Peer(x)]
                 /\ log' = Append(log, [c |-> c, k |-> x.k, n |-> x.n, m |-> x.m, how |-> x.how, x |-> Expected(x)])
            /\ UNCHANGED <<st, in, shut, bio, plain, got, out, peer, res>>
Act(c) == /\ todo[c] # <<>> /\ todo' = [todo EXCEPT ![c] = Tail(@)]
          /\ IF Head(todo[c]).t = "shut" THEN shut' = [shut EXCEPT ![c] = TRUE] /\ UNCHANGED in ELSE in' = [in EXCEPT ![c] = Append(@, Head(todo[c]))] /\ UNCHANGED shut
          /\ UNCHANGED <<st, op, bio, plain, got, out, peer, res, log>>
Finish(c, r, s) == res' = [res EXCEPT ![c] = Append(@, r)] /\ op' = [op EXCEPT ![c] = None] /\ st' = [st EXCEPT ![c] = s]
\* ---- receiving
NeedsMore(c) == op[c].k = "recv" /\ plain[c] = 0 /\ (IF bio[c] = <<>> THEN TRUE ELSE ~bio[c][Len(bio[c])].e)
Feed(c) == /\ NeedsMore(c) /\ in[c] # <<>>
           /\ bio' = [bio EXCEPT ![c] = Append(@, Head(in[c]))] /\ in' = [in EXCEPT ![c] = Tail(@)]
           /\ UNCHANGED <<st, op, shut, plain, got, out, peer, todo, res, log>>
Decrypt(c) == /\ op[c].k = "recv" /\ (IF bio[c] = <<>> THEN FALSE ELSE bio[c][Len(bio[c])].e)
              /\ bio' = [bio EXCEPT ![c] = <<>>]
              /\ CASE bio[c][1].t = "data" -> plain' = [plain EXCEPT ![c] = @ + 1] /\ UNCHANGED <<st, op, res>>
                   [] bio[c][1].t = "hello" -> Finish(c, "ok", "open") /\ UNCHANGED plain
                   [] OTHER -> Finish(c, "over", "over") /\ UNCHANGED plain
              /\ UNCHANGED <<in, shut, got, out, peer, todo, log>>
Take(c) == /\ op[c].k = "recv" /\ plain[c] > 0
           /\ plain' = [plain EXCEPT ![c] = @ - 1] /\ got' = [got EXCEPT ![c] = @ + 1]
           /\ IF op[c].n = 1 THEN Finish(c, "ok", st[c]) ELSE op' = [op EXCEPT ![c].n = @ - 1] /\ UNCHANGED <<st, res>>
           /\ UNCHANGED <<in, shut, bio, out, peer, todo, log>>
Gone(c) == /\ NeedsMore(c) /\ in[c] = <<>> /\ shut[c]
           /\ Finish(c, "over", "over") /\ UNCHANGED <<in, shut, bio, plain, got, out, peer, todo, log>>
\* only an operation with a limit ends by itself
Limit(c) == /\ NeedsMore(c) /\ op[c].how = "silent" /\ in[c] = <<>> /\ ~shut[c]
            /\ Finish(c, IF st[c] = "new" THEN "over" ELSE "timeout", "over") /\ UNCHANGED <<in, shut, bio, plain, got, out, peer, todo, log>>
\* ---- sending: what the buffer holds is written out before more is encrypted
Encrypt(c) == /\ op[c].k = "send" /\ op[c].left > 0 /\ out[c] < Cap
              /\ op' = [op EXCEPT ![c].left = @ - 1] /\ out' = [out EXCEPT ![c] = @ + 1]
              /\ UNCHANGED <<st, in, shut, bio, plain, got, peer, todo, res, log>>
Drain(c) == /\ op[c].k = "send" /\ out[c] > 0
            /\ out' = [out EXCEPT ![c] = @ - 1] /\ peer' = [peer EXCEPT ![c] = @ + 1]
            /\ UNCHANGED <<st, op, in, shut, bio, plain, got, todo, res, log>>
Sent(c) == /\ op[c].k \in {"send", "done"} /\ op[c].left = 0 /\ out[c] = 0
           /\ IF op[c].n > 0 THEN op' = [op EXCEPT ![c].k = "recv"] /\ UNCHANGED <<st, res>> ELSE Finish(c, "ok", st[c])
           /\ UNCHANGED <<in, shut, bio, plain, got, out, peer, todo, log>>
Machine(c) == Act(c) \/ Feed(c) \/ Decrypt(c) \/ Take(c) \/ Gone(c) \/ Limit(c) \/ Encrypt(c) \/ Drain(c) \/ Sent(c)
Next == \E c \in C : Begin(c) \/ Machine(c)
Spec == Init /\ [][Next]_vars /\ \A c \in C : WF_vars(Machine(c))
\* ---------------------------------------------------------------- properties
RECURSIVE Sum(_, _)
Sum(s, f) == IF s = <<>> THEN 0 ELSE (IF f = "n" THEN Head(s).n ELSE Head(s).m) + Sum(Tail(s), f)
Ended(c) == SubSeq(Of(c), 1, Len(res[c]))
AsExpected == \A c \in C : \A i \in DOMAIN res[c] : res[c][i] = Of(c)[i].x
\* both directions: everything of the operations that have ended, nothing else
Received == \A c \in C : op[c].k = "none" => got[c] = Sum(Ended(c), "n") /\ plain[c] = 0
Delivered == \A c \in C : op[c].k = "none" => peer[c] = Sum(Ended(c), "m") /\ out[c] = 0
NotMore == \A c \in C : got[c] <= Sum(Of(c), "n") /\ peer[c] <= Sum(Of(c), "m")
Apart == [][\A c \in C : (res'[c] # res[c] \/ got'[c] # got[c]) => \A d \in C \ {c} : res'[d] = res[d] /\ got'[d] = got[d] /\ st'[d] = st[d]]_vars
Ends == \A c \in C : (op[c].k # "none") ~> (op[c].k = "none")
Emit == (Keep /\ Len(log) = MaxSteps /\ \A c \in C : op[c].k = "none") => PrintT("@@" \o ToJson([log |-> log, n |-> NC]))
EmitAll == (Keep /\ log # <<>> /\ (\A c \in C : op[c].k = "none") /\ (Len(log) = MaxSteps \/ \A c \in C : st[c] = "over")) => PrintT("@@" \o ToJson([log |-> log, n |-> NC]))
=============================================================================
