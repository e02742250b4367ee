------------------------------ MODULE WsFrame ------------------------------
(* The frame header: a bijection between (kind, masked, length) and bytes,     *)
(* the length in its shortest form.  TLC checks it for the lengths around all  *)
(* changes of form and emits the header of each for comparison with the code.  *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Extra      \* more lengths, chosen by the check
Lens == (0..130) \cup (65530..65540) \cup {255, 256, 257, 1000, 4096, 16384, 32767, 32768, 131072, 131073} \cup Extra
Code(op) == CASE op = "T" -> 1 [] op = "B" -> 2 [] op = "P" -> 9 [] op = "X" -> 8
RECURSIVE BigEndian(_, _)
BigEndian(v, k) == IF k = 0 THEN <<>> ELSE Append(BigEndian(v \div 256, k - 1), v % 256)
Encode(op, masked, len) ==
  LET m == IF masked THEN 128 ELSE 0 IN
  <<128 + Code(op)>> \o (IF len < 126 THEN <<m + len>> ELSE IF len < 65536 THEN <<m + 126>> \o BigEndian(len, 2) ELSE <<m + 127>> \o BigEndian(len, 8))
RECURSIVE Value(_)
Value(b) == IF b = <<>> THEN 0 ELSE Value(SubSeq(b, 1, Len(b) - 1)) * 256 + b[Len(b)]
DecLen(h) == LET l == h[2] % 128 IN IF l < 126 THEN <<l, 2>> ELSE IF l = 126 THEN <<Value(SubSeq(h, 3, 4)), 4>> ELSE <<Value(SubSeq(h, 3, 10)), 10>>
VARIABLES f
Init == \E op \in {"T", "B", "P", "X"}, m \in BOOLEAN, n \in Lens : (op \in {"P", "X"} => n <= 125) /\ f = [op |-> op, m |-> m, n |-> n]
Next == UNCHANGED f
H == Encode(f.op, f.m, f.n)
RoundTrip == DecLen(H) = <<f.n, Len(H)>> /\ (H[2] >= 128) = f.m /\ H[1] = 128 + Code(f.op)
Shortest == (Len(H) = 4 => f.n > 125) /\ (Len(H) = 10 => f.n > 65535)
Bytes == \A i \in 1..Len(H) : H[i] \in 0..255
Emit == PrintT("@@" \o ToJson([op |-> f.op, m |-> f.m, n |-> f.n, h |-> H]))
=============================================================================
