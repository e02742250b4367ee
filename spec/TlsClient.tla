------------------------------ MODULE TlsClient ------------------------------
(* A client over TLS whose server accepts one connection after another: each   *)
(* answers some requests and is then closed, or fails while shaking hands.     *)
(* The client notices a dead connection when it uses it and then tries once    *)
(* more.  Every connection is a new TLS session: nothing of an earlier one     *)
(* matters.  result: "ok" (the answer to that request) or "any" (it or an error) where *)
(* the specification leaves open whether a failed first connect is repeated.   *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MaxConns, MaxCalls, Keep
VARIABLES script, at, up, left, calls
vars == <<script, at, up, left, calls>>
Close == {"notify", "cut"}
Bad == {"garbage", "plain", "gone", "half"}
\* at most one failing connection; behind the script every connection answers for ever
Entries == {[a |-> a, how |-> h] : a \in 1..2, h \in Close} \union {[a |-> 0, how |-> h] : h \in Bad \union Close}
Fails(e) == e.how \in Bad
Scripts == {s \in UNION {[1..n -> Entries] : n \in 0..MaxConns} : \A i, j \in DOMAIN s : (s[i].a = 0 /\ s[j].a = 0) => i = j}
Entry(i) == IF i <= Len(script) THEN script[i] ELSE [a |-> 1000, how |-> "cut"]
Init == script \in Scripts /\ at = 0 /\ up = FALSE /\ left = 0 /\ calls = <<>>
Good(e) == e.a > 0
Answer(r) == calls' = Append(calls, r)
\* a connection is made to entry i and used
Call == /\ Len(calls) < MaxCalls /\ UNCHANGED script
        /\ IF up /\ left > 0 THEN left' = left - 1 /\ Answer("ok") /\ UNCHANGED <<at, up>>
           ELSE IF up THEN \* the connection is dead: once more on a new one
                IF Good(Entry(at + 1)) THEN at' = at + 1 /\ left' = Entry(at + 1).a - 1 /\ up' = TRUE /\ Answer("ok")
                ELSE \/ at' = at + 1 /\ left' = 0 /\ up' = FALSE /\ Answer("any")
                     \/ at' = at + 2 /\ left' = Entry(at + 2).a - 1 /\ up' = TRUE /\ Answer("any") \* the dead connection was noticed before it was used
           ELSE IF Good(Entry(at + 1)) THEN at' = at + 1 /\ left' = Entry(at + 1).a - 1 /\ up' = TRUE /\ Answer("ok")
                ELSE \* nothing was sent, or nothing came back: the client may try again
                     \/ at' = at + 1 /\ left' = 0 /\ up' = FALSE /\ Answer("any")
                     \/ at' = at + 2 /\ left' = Entry(at + 2).a - 1 /\ up' = TRUE /\ Answer("any")
Next == Call
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
\* at most one call fails: the next one is served again
OneFailure == \A i, j \in DOMAIN calls : (calls[i] # "ok" /\ calls[j] # "ok") => i = j
Served == \A i \in DOMAIN calls : (i > 1 /\ calls[i - 1] # "ok") => calls[i] = "ok"
Emit == (Keep /\ Len(calls) = MaxCalls) => PrintT("@@" \o ToJson([script |-> script, calls |-> calls]))
=============================================================================
