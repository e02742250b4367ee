-------------------------------- MODULE File --------------------------------
(* The file API: handles (AsyncFile) over files, and the whole-file helpers.  *)
(* Contents are sequences of units; every unit written is distinct, 0 is the  *)
(* filler of a hole.  A handle has a position for reading (setOffset moves    *)
(* it; open resets it) and one for writing (always the end in append mode).   *)
(* An operation the mode does not allow, or a missing file opened for reading,*)
(* is an error and changes nothing.                                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Handles, Files, MaxOps, MaxW, Keep
VARIABLES fs, h, next, n, hist, done, last, f0
vars == <<fs, h, next, n, hist, done, last, f0>>
Missing == <<-1>>
Closed == [m |-> "closed", f |-> 1, r |-> 0, w |-> 0]
Modes == {"read", "write", "rw", "append"}
Init == /\ fs \in [Files -> {Missing, <<>>, <<1, 2>>}] /\ h = [x \in Handles |-> Closed] /\ next = 3 /\ n = 0 /\ hist = <<>> /\ done = FALSE
        /\ f0 = fs /\ last = [op |-> "none", h |-> 1, r |-> "ok", d |-> <<>>]
Log(e) == n < MaxOps /\ ~done /\ n' = n + 1 /\ hist' = (IF Keep THEN Append(hist, e) ELSE hist) /\ last' = [op |-> e.op, h |-> e.h, r |-> e.r, d |-> e.d] /\ UNCHANGED <<done, f0>>
E(op, x, f, m, k, v, r, d) == [op |-> op, h |-> x, f |-> f, m |-> m, k |-> k, v |-> v, r |-> r, d |-> d]
Has(f) == fs[f] # Missing
MinI(a, b) == IF a < b THEN a ELSE b
\* c with the units d written at position p
Put(c, p, d) == LET len == IF d = <<>> THEN Len(c) ELSE IF p + Len(d) > Len(c) THEN p + Len(d) ELSE Len(c)
                IN [j \in 1..len |-> IF j > p /\ j <= p + Len(d) THEN d[j - p] ELSE IF j <= Len(c) THEN c[j] ELSE 0]
Slice(c, p, k) == IF p >= Len(c) THEN <<>> ELSE SubSeq(c, p + 1, MinI(Len(c), p + k))
Open == \E x \in Handles, f \in Files, m \in Modes, v \in 0..1 :   \* v: how the path is given
    /\ h[x].m = "closed" /\ UNCHANGED next
    /\ IF m = "read" /\ ~Has(f) THEN Log(E("open", x, f, m, 0, v, "err", <<>>)) /\ UNCHANGED <<fs, h>>
       ELSE /\ Log(E("open", x, f, m, 0, v, "ok", <<>>))
            /\ fs' = [fs EXCEPT ![f] = IF m = "write" \/ ~Has(f) THEN <<>> ELSE @]
            /\ h' = [h EXCEPT ![x] = [m |-> m, f |-> f, r |-> 0, w |-> 0]]
Close == \E x \in Handles : h[x].m # "closed" /\ Log(E("close", x, 1, "", 0, 0, "ok", <<>>)) /\ h' = [h EXCEPT ![x].m = "closed"] /\ UNCHANGED <<fs, next>>
CanRead(x) == h[x].m \in {"read", "rw"}
CanWrite(x) == h[x].m \in {"write", "rw", "append"}
Read == \E x \in Handles, k \in {1, 2, 4}, v \in 0..1 :
    /\ h[x].m # "closed" /\ UNCHANGED <<fs, next>>
    /\ IF ~CanRead(x) THEN Log(E("read", x, 1, "", k, v, "err", <<>>)) /\ UNCHANGED h
       ELSE LET d == Slice(fs[h[x].f], h[x].r, k) IN Log(E("read", x, 1, "", k, v, "ok", d)) /\ h' = [h EXCEPT ![x].r = @ + Len(d)]
ReadAll == \E x \in Handles :
    /\ h[x].m # "closed" /\ UNCHANGED <<fs, next>>
    /\ IF ~CanRead(x) THEN Log(E("readAll", x, 1, "", 0, 0, "err", <<>>)) /\ UNCHANGED h
       ELSE LET d == Slice(fs[h[x].f], h[x].r, 1000) IN Log(E("readAll", x, 1, "", 0, 0, "ok", d)) /\ h' = [h EXCEPT ![x].r = @ + Len(d)]
Write == \E x \in Handles, k \in 0..MaxW :
    /\ h[x].m # "closed"
    /\ LET d == [j \in 1..k |-> next + j - 1] f == h[x].f p == IF h[x].m = "append" THEN Len(fs[f]) ELSE h[x].w IN
       IF ~CanWrite(x) /\ k > 0 THEN Log(E("write", x, 1, "", k, 0, "err", d)) /\ UNCHANGED <<fs, h>> /\ next' = next + k
       ELSE Log(E("write", x, 1, "", k, 0, "ok", d)) /\ next' = next + k
            /\ fs' = [fs EXCEPT ![f] = Put(@, p, d)] /\ h' = [h EXCEPT ![x].w = IF k = 0 THEN @ ELSE p + k]
Seek == \E x \in Handles, k \in {0, 1, 3, 6} : h[x].m # "closed" /\ Log(E("seek", x, 1, "", k, 0, "ok", <<>>)) /\ h' = [h EXCEPT ![x].r = k] /\ UNCHANGED <<fs, next>>
\* helpers on whole files
Get == \E f \in Files : UNCHANGED <<fs, h, next>> /\ Log(E("get", 1, f, "", 0, 0, IF Has(f) THEN "ok" ELSE "err", IF Has(f) THEN fs[f] ELSE <<>>))
Size == \E f \in Files : UNCHANGED <<fs, h, next>> /\ Log(E("size", 1, f, "", IF Has(f) THEN Len(fs[f]) ELSE 0, 0, IF Has(f) THEN "ok" ELSE "err", <<>>))
PutAll == \E f \in Files, k \in 0..MaxW :
    LET d == [j \in 1..k |-> next + j - 1] IN
    UNCHANGED h /\ next' = next + k /\ fs' = [fs EXCEPT ![f] = d] /\ Log(E("put", 1, f, "", k, 0, "ok", d))
\* devices: nothing can be written to a full one; a directory can be opened and closed
Special == \E s \in {"full", "putfull", "dir"} : UNCHANGED <<fs, h, next>> /\ Log(E(s, 1, 1, "", 0, 0, IF s = "dir" THEN "ok" ELSE "err", <<>>))
Finish == ~done /\ n = MaxOps /\ done' = TRUE /\ UNCHANGED <<fs, h, next, n, hist, last, f0>>
Next == Open \/ Close \/ Read \/ ReadAll \/ Write \/ Seek \/ Get \/ Size \/ PutAll \/ Special \/ Finish
Spec == Init /\ [][Next]_vars
\* ----------------------------------------------------------------- properties
Appends(c, d) == Len(d) >= Len(c) /\ SubSeq(d, 1, Len(c)) = c
\* an error changes nothing; appending never alters what is there; what was written is there
ErrNothing == [][last' # last /\ last'.r = "err" => fs' = fs /\ h' = h]_vars
AppendKeeps == [][last' # last /\ last'.op = "write" /\ h[last'.h].m = "append" => Appends(fs[h[last'.h].f], fs'[h[last'.h].f])]_vars
ReadsBack == [][last' # last /\ last'.op = "write" /\ last'.r = "ok" /\ last'.d # <<>> =>
                  LET x == last'.h IN Slice(fs'[h[x].f], h'[x].w - Len(last'.d), Len(last'.d)) = last'.d]_vars
NoWriteNoChange == [][next' = next => \A f \in Files : fs'[f] = fs[f] \/ fs'[f] = <<>>]_vars
\* every unit is in a file at most once (holes aside)
Unique == \A f, g \in Files : \A i \in DOMAIN fs[f], j \in DOMAIN fs[g] : (Has(f) /\ Has(g) /\ fs[f][i] > 2 /\ fs[f][i] = fs[g][j]) => (f = g /\ i = j)
Emit == (done /\ Keep) => PrintT("@@" \o ToJson([ops |-> hist, fs |-> fs, init |-> f0, left |-> [x \in Handles |-> h[x].m]]))
=============================================================================
