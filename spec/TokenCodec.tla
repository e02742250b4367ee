----------------------------- MODULE TokenCodec -----------------------------
(* The text codec of tokens (base64url), at a scale TLC can exhaust: bytes of *)
(* BB bits, characters of CB bits, 3 bytes = 4 characters (as 8 and 6).      *)
(* Character Bad stands for every character outside the alphabet.            *)
EXTENDS Integers, Sequences, TLC
CONSTANTS BB, CB, MaxBytes, Strict   \* Strict: spare bits must be zero and characters must be in the alphabet
ASSUME 3 * BB = 4 * CB
Byte == 0..(2^BB - 1)
Char == 0..(2^CB - 1)
Bad == 2^CB
RECURSIVE ToBits(_, _)
ToBits(v, n) == IF n = 0 THEN <<>> ELSE Append(ToBits(v \div 2, n - 1), v % 2)
RECURSIVE FromBits(_)
FromBits(b) == IF b = <<>> THEN 0 ELSE 2 * FromBits(SubSeq(b, 1, Len(b) - 1)) + b[Len(b)]
RECURSIVE Flat(_, _)
Flat(s, n) == IF s = <<>> THEN <<>> ELSE ToBits(Head(s), n) \o Flat(Tail(s), n)
Group(bits, n) == [i \in 1..(Len(bits) \div n) |-> FromBits(SubSeq(bits, (i - 1) * n + 1, i * n))]
Zeros(n) == [i \in 1..n |-> 0]
Encode(bs) == LET bits == Flat(bs, BB)  r == Len(bits) % CB
              IN Group(bits \o Zeros(IF r = 0 THEN 0 ELSE CB - r), CB)
\* Decode gives <<ok, bytes>>
Decode(cs) ==
    LET clean == [i \in DOMAIN cs |-> IF cs[i] = Bad THEN 2^CB - 1 ELSE cs[i]]
        bits == Flat(clean, CB)  n == Len(bits) \div BB
        spare == SubSeq(bits, n * BB + 1, Len(bits)) IN
    IF Len(cs) % 4 = 1 THEN <<FALSE, <<>>>>
    ELSE IF Strict /\ ((\E i \in DOMAIN cs : cs[i] = Bad) \/ (\E i \in DOMAIN spare : spare[i] = 1)) THEN <<FALSE, <<>>>>
    ELSE <<TRUE, Group(SubSeq(bits, 1, n * BB), BB)>>
VARIABLES bs, cs
Init == bs = <<>> /\ cs = <<>>
AddByte == Len(bs) < MaxBytes /\ cs = <<>> /\ \E b \in Byte : bs' = Append(bs, b) /\ UNCHANGED cs
MaxChars == (MaxBytes * BB + CB - 1) \div CB
AddChar == Len(cs) < MaxChars /\ bs = <<>> /\ \E c \in Char \union {Bad} : cs' = Append(cs, c) /\ UNCHANGED bs
Next == AddByte \/ AddChar
\* every byte string comes back; a text opens only if it is exactly what sealing writes
RoundTrip == Decode(Encode(bs)) = <<TRUE, bs>>
OneText == LET d == Decode(cs) IN d[1] => Encode(d[2]) = cs
=============================================================================
