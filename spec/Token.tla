------------------------------- MODULE Token -------------------------------
(* Tokens (net::token::TokenApi): issuing under a key, an attacker who alters *)
(* issued texts, opening under a key, on one long-lived cipher context per   *)
(* key that also sees failures.  Encryption is ideal: a text opens under a   *)
(* key iff it is, unchanged, a text issued under that key.                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS NK, NV, L, MaxTok, Vacuous
K == 1..NK
Mut == {"none", "char", "spare", "invalid", "truncate", "drop", "extend", "pad", "dup", "swap", "splice", "case", "empty"}
VARIABLES toks,    \* issued tokens [k, v]
          ctx,     \* per key: the last use of its context failed
          steps, hist
vars == <<toks, ctx, steps, hist>>
Init == toks = <<>> /\ ctx = [k \in K |-> FALSE] /\ steps = 0 /\ hist = <<>>
Log(r) == hist' = Append(hist, r) /\ steps' = steps + 1
Seal(k, v) == /\ Len(toks) < MaxTok /\ toks' = Append(toks, [k |-> k, v |-> v]) /\ ctx' = [ctx EXCEPT ![k] = FALSE]
              /\ Log([op |-> "seal", k |-> k, v |-> v, t |-> Len(toks) + 1, u |-> 0, mut |-> "none", x |-> 0, y |-> 0, exp |-> v])
Opens(k, t, mut) == mut = "none" /\ toks[t].k = k
Open(k, t, u, mut, x, y) ==
    LET ok == Opens(k, t, mut) IN
    /\ ctx' = [ctx EXCEPT ![k] = ~ok] /\ UNCHANGED toks
    /\ Log([op |-> "open", k |-> k, v |-> 0, t |-> t, u |-> u, mut |-> mut, x |-> x, y |-> y, exp |-> IF ok THEN toks[t].v ELSE -1])
Pick(S) == RandomElement(IF steps < 0 THEN {} ELSE S)
Next == /\ steps < L
        /\ IF Vacuous
           THEN \/ \E k \in K, v \in 1..NV : Seal(k, v)
                \/ \E k \in K, t \in DOMAIN toks, mut \in {"none", "char"} : Open(k, t, t, mut, 0, 0)
           ELSE \/ Seal(Pick(K), Pick(1..NV))
                \/ toks # <<>> /\ LET t == Pick(DOMAIN toks) IN Open(Pick({toks[t].k, Pick(K)}), t, Pick(DOMAIN toks),
                                      Pick(Mut), Pick(0..9999), Pick(1..9999))
                \/ toks # <<>> /\ LET t == Pick(DOMAIN toks) IN Open(Pick({toks[t].k, Pick(K)}), t, t, "none", 0, 0)
Spec == Init /\ [][Next]_vars
\* the guarantee, over the history alone
Opened == \A i \in DOMAIN hist : hist[i].op = "open" =>
    LET sealed == {j \in 1..(i - 1) : hist[j].op = "seal" /\ hist[j].t = hist[i].t} IN
    IF hist[i].mut = "none" /\ (\E j \in sealed : hist[j].k = hist[i].k)
    THEN \E j \in sealed : hist[i].exp = hist[j].v ELSE hist[i].exp = -1
Emit == (steps = L) => PrintT("@@" \o ToJson(hist))
=============================================================================
