------------------------------ MODULE DbValues ------------------------------
(* A table with a column of every type: what is stored is what is read, in   *)
(* whichever way it is stored (insert, update) and read (returning, query,   *)
(* comparison with a parameter), across reopening.  Values are tokens:       *)
(* decimal integers, hexadecimal floats, bytes in hexadecimal; "" is null.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Seeds, Steps
VARIABLES sd, step, rows, next, log
vars == <<sd, step, rows, next, log>>
H(x, i) == ((x % 20011) * 7919 + i * 104729 + 12345) % 20011
Pick(sq, x) == sq[((x \div 7) % Len(sq)) + 1]
Bytes == <<"x", "x00", "x610062", "x27", "x22", "xfffe80", "xf09f9880", "x3130", "x2d352e30", "x4e554c4c", "x20", "x0d0a", "r61*5000", "r00*3", "xc3a9", "x78273b2d2d", "r27*300">>
Pool == [a |-> <<"-128", "127", "0", "-1", "65">>, b |-> <<"-32768", "32767", "0", "-1", "255">>,
    c |-> <<"-2147483648", "2147483647", "0", "-1", "65536">>,
    d |-> <<"-9223372036854775808", "9223372036854775807", "0", "-1", "4294967296", "9007199254740993", "-2147483649", "2147483648">>,
    e |-> <<"0x0p+0", "0x1p-149", "0x1.fffffep+127", "0x1.99999ap-4", "-0x1.5p+3", "0x1p+24", "-0x1p+31">>,
    f |-> <<"0x0p+0", "0x0.0000000000001p-1022", "0x1.fffffffffffffp+1023", "0x1.999999999999ap-4", "-0x1.8p+0", "0x1p+63", "0x1.0000000000001p+53", "-0x1p+63", "0x1p+31">>,
    g |-> Bytes, h |-> Bytes, p |-> <<"3,4", "-1,0", "2147483647,-2147483648", "0,0">>, t |-> Bytes, y |-> <<"0", "20000", "-1", "11016">>]
Kinds == DOMAIN Pool
Cols == Kinds \cup {"oa", "ob", "oc", "od", "oe", "of", "og", "oh", "op", "ot", "oy", "ka"}
Kind(c) == CASE c = "oa" -> "a" [] c = "ob" -> "b" [] c = "oc" -> "c" [] c = "od" -> "d" [] c = "oe" -> "e" [] c = "of" -> "f" [] c = "og" -> "g" [] c = "oh" -> "h"
    [] c = "op" -> "p" [] c = "ot" -> "t" [] c = "oy" -> "y" [] c = "ka" -> "d" [] OTHER -> c
Order == <<"a", "b", "c", "d", "e", "f", "g", "h", "p", "t", "y", "oa", "ob", "oc", "od", "oe", "of", "og", "oh", "op", "ot", "oy", "ka">>
Nr(c) == CHOOSE i \in DOMAIN Order : Order[i] = c
Value(c, x) == IF c \in Kinds \cup {"ka"} \/ x % 3 # 0 THEN Pick(Pool[Kind(c)], x) ELSE ""
Row(x) == [c \in Cols |-> Value(c, H(x, Nr(c)))]
X == H(H(sd, step), 3)
Init == sd \in Seeds /\ step = 0 /\ rows = <<>> /\ next = 1 /\ log = <<>>
Note(e) == log' = Append(log, e) /\ step' = step + 1 /\ sd' = sd
Flags == [ret |-> H(X, 1) % 2 = 0]
Insert == LET r == Row(H(X, 2)) IN rows' = Append(rows, [id |-> next, v |-> r]) /\ next' = next + 1 /\ Note([op |-> "insert", row |-> r, ret |-> Flags.ret, id |-> next])
Update == \E i \in {1 + (H(X, 4) % Len(rows))} : LET r == Row(H(X, 5)) IN
    rows' = [rows EXCEPT ![i].v = r] /\ next' = next /\ Note([op |-> "update", id |-> rows[i].id, row |-> r, ret |-> Flags.ret])
Some(c) == LET i == 1 + (H(X, 6) % Len(rows)) IN IF H(X, 8) % 4 # 0 /\ rows[i].v[c] # "" THEN rows[i].v[c] ELSE Pick(Pool[Kind(c)], H(X, 9))
Find == \E c \in {Pick(Order, H(X, 10))} : LET v == Some(c) IN UNCHANGED <<rows, next>> /\
    Note([op |-> "find", c |-> c, v |-> v, ids |-> {rows[k].id : k \in {k \in DOMAIN rows : rows[k].v[c] = v}}])
Read == UNCHANGED <<rows, next>> /\ Note([op |-> "read", rows |-> rows])
Reopen == UNCHANGED <<rows, next>> /\ Note([op |-> "reopen"])
Next == step < Steps /\ LET z == H(X, 11) % 10 IN
    CASE step = Steps - 1 -> Read [] rows = <<>> \/ (z < 3 /\ Len(rows) < 6) -> Insert [] z < 5 -> Update [] z < 8 -> Find [] z < 9 -> Read [] OTHER -> Reopen
Spec == Init /\ [][Next]_vars
Required == \A i \in DOMAIN rows : \A c \in Kinds : rows[i].v[c] # ""
Ids == \A i, j \in DOMAIN rows : i < j => rows[i].id < rows[j].id
Emit == step = Steps => PrintT("@@" \o ToJson([log |-> log]))
=============================================================================
