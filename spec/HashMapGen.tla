----------------------------- MODULE HashMapGen -----------------------------
(* Histories over a fixed-key map: what a map must answer.  Keys are numbers *)
(* of a pool, the harness maps them injectively to keys of several types.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Sizes, Pool, L, Small
(* Small: every key set over a small pool and every probe once (exhaustive); *)
(* otherwise keys are an arithmetic pattern modulo Pool (a prime)            *)
VARIABLES keys, val, steps, hist, done
vars == <<keys, val, steps, hist, done>>
Op == {"find", "cfind", "at", "cat", "setat", "setfind"}
Pattern(n, a, b) == [i \in 1..n |-> (a * i + b) % Pool]
Init == /\ IF Small
           THEN \E n \in Sizes : \E f \in [1..n -> 0..(Pool - 1)] : (\A i, j \in 1..n : i # j => f[i] # f[j]) /\ keys = f
           ELSE \E n \in Sizes, a \in {1, 2, 3, 7, 64, 256, Pool - 1}, b \in {0, 1, 5, 100} : keys = Pattern(n, a, b)
        /\ val = [i \in DOMAIN keys |-> i] /\ steps = 0 /\ hist = <<>> /\ done = FALSE
Where(k) == {i \in DOMAIN keys : keys[i] = k}
Do(op, k) ==
    LET w == Where(k)  i == IF w = {} THEN 0 ELSE CHOOSE x \in w : TRUE
        v == 1000 + steps
        res == IF i = 0 THEN -1 ELSE val[i] IN
    /\ val' = IF i > 0 /\ op \in {"setat", "setfind"} THEN [val EXCEPT ![i] = v] ELSE val
    /\ hist' = Append(hist, [op |-> op, k |-> k, v |-> v, exp |-> res])
    /\ steps' = steps + 1 /\ UNCHANGED <<keys, done>>
Sweep == Small /\ steps < Pool * 2 /\ Do(IF steps % 2 = 0 THEN "find" ELSE "at", steps \div 2)
Rand == ~Small /\ steps < L /\
        Do(RandomElement(IF steps < 0 THEN {} ELSE Op),
           IF RandomElement(IF steps < 0 THEN {} ELSE BOOLEAN) THEN keys[RandomElement(IF steps < 0 THEN {} ELSE DOMAIN keys)]
           ELSE RandomElement(IF steps < 0 THEN {} ELSE 0..(Pool - 1)))
Finish == /\ ~done /\ steps = (IF Small THEN Pool * 2 ELSE L) /\ done' = TRUE /\ UNCHANGED <<keys, val, steps, hist>>
Next == Sweep \/ Rand \/ Finish
\* a map: the last value written to a key of the map, otherwise its first value; absent keys stay absent
LastOf(k, n) == LET ws == {j \in 1..n : hist[j].k = k /\ hist[j].op \in {"setat", "setfind"}}
                    inmap == Where(k) # {} IN
                IF ~inmap THEN -1 ELSE IF ws = {} THEN CHOOSE i \in Where(k) : TRUE
                ELSE hist[CHOOSE j \in ws : \A l \in ws : l <= j].v
MapLike == \A j \in DOMAIN hist : hist[j].exp = LastOf(hist[j].k, j - 1)
Emit == done => PrintT("@@" \o ToJson([keys |-> keys, h |-> hist]))
=============================================================================
