----------------------------- MODULE TypedJson -----------------------------
(* JSON for typed values: an abstract reader (text -> value, refusal, or     *)
(* "free": texts outside the standard that the library may or may not take)  *)
(* and an abstract writer with every freedom the standard leaves (white      *)
(* space, member order, escape forms).  Texts and strings are sequences of   *)
(* bytes.  Types are descriptors; T(name) gives the named ones.              *)
EXTENDS Integers, Sequences, FiniteSets, TLC
\* ---------------------------------------------------------------- characters
QU == 34  BS == 92  SL == 47  LB == 91  RB == 93  LC == 123  RC == 125  CO == 44  CL == 58  MI == 45  SP == 32
Ws == {32, 9, 10, 13}
Digit == 48..57
NumCh == Digit \union {43, 45, 46, 69, 101}
Hex(c) == IF c \in Digit THEN c - 48 ELSE IF c \in 65..70 THEN c - 55 ELSE IF c \in 97..102 THEN c - 87 ELSE -1
Utf8(cp) == IF cp < 128 THEN <<cp>>
            ELSE IF cp < 2048 THEN <<192 + cp \div 64, 128 + (cp % 64)>>
            ELSE IF cp < 65536 THEN <<224 + cp \div 4096, 128 + ((cp \div 64) % 64), 128 + (cp % 64)>>
            ELSE <<240 + cp \div 262144, 128 + ((cp \div 4096) % 64), 128 + ((cp \div 64) % 64), 128 + (cp % 64)>>
Printable == "0123456789abcdefghijklmnopqrstuvwxyz-+.E"
Codes == [i \in 1..40 |-> IF i <= 10 THEN 47 + i ELSE IF i <= 36 THEN 86 + i ELSE CASE i = 37 -> 45 [] i = 38 -> 43 [] i = 39 -> 46 [] OTHER -> 69]
CodeOf(ch) == Codes[CHOOSE i \in 1..40 : SubSeq(Printable, i, i) = ch]
B(str) == [i \in 1..Len(str) |-> CodeOf(SubSeq(str, i, i))]   \* bytes of an ASCII word
a_ == B("a")  b_ == B("b")  c_ == B("c")  x_ == B("x")  y_ == B("y")  k_ == B("k")  v_ == B("v")
red_ == B("red")  green_ == B("green")
true_ == B("true")  false_ == B("false")  null_ == B("null")
\* --------------------------------------------------------------------- types
IntTy(lo, hi) == [k |-> "int", lo |-> B(lo), hi |-> B(hi)]   \* decimal magnitudes of the bounds
I32 == IntTy("2147483648", "2147483647")
U8 == IntTy("0", "255")
I8 == IntTy("128", "127")
I64 == IntTy("9223372036854775808", "9223372036854775807")
U64 == IntTy("0", "18446744073709551615")
Str == [k |-> "str"]  Bool == [k |-> "bool"]  
\* floating point: exponent x and leading digits of the largest, smallest 0.DIGITS * 10^x that is representable
DblTy(x, hi, n, lo) == [k |-> "dbl", x |-> x, hi |-> B(hi), n |-> n, lo |-> B(lo)]
Dbl == DblTy(309, "17976931348623157", -323, "5")
Flt == DblTy(39, "34028235", -44, "1")
ListOf(e) == [k |-> "list", e |-> e]
ArrayOf(e, n) == [k |-> "array", e |-> e, n |-> n]
OptOf(e) == [k |-> "opt", e |-> e]
MapOf(e) == [k |-> "map", e |-> e]
TupleOf(es) == [k |-> "tuple", es |-> es]
Rec(fs) == [k |-> "rec", f |-> fs]     \* fs: sequence of [n |-> bytes, t |-> type]
F(n, t) == [n |-> n, t |-> t]
Ref(n) == [k |-> "ref", n |-> n]
Enum == [k |-> "enum", names |-> <<red_, green_>>]
AB == Rec(<<F(a_, I32), F(b_, Str)>>)
T(n) == CASE n = "int" -> I32 [] n = "u8" -> U8 [] n = "i8" -> I8 [] n = "i64" -> I64 [] n = "u64" -> U64 [] n = "flt" -> Flt [] n = "bool" -> Bool [] n = "str" -> Str [] n = "dbl" -> Dbl
          [] n = "enum" -> Enum
          [] n = "lint" -> ListOf(I32) [] n = "lstr" -> ListOf(Str) [] n = "llint" -> ListOf(ListOf(I32))
          [] n = "oint" -> OptOf(I32) [] n = "ostr" -> OptOf(Str)
          [] n = "lobool" -> ListOf(OptOf(Bool))
          [] n = "msi" -> MapOf(I32) [] n = "mslb" -> MapOf(ListOf(Str))
          [] n = "tis" -> TupleOf(<<I32, Str>>) [] n = "ttb" -> TupleOf(<<TupleOf(<<I32, Str>>), OptOf(I32), U8>>)
          [] n = "arr" -> ArrayOf(I32, 2)
          [] n = "ab" -> AB [] n = "chr" -> Rec(<<F(c_, I8)>>)
          [] n = "nest" -> Rec(<<F(x_, AB), F(y_, ListOf(OptOf(AB))), F(k_, MapOf(AB)), F(v_, Enum), F(a_, TupleOf(<<I32, Str>>))>>)
          [] n = "tree" -> Rec(<<F(v_, I32), F(k_, ListOf(Ref("tree")))>>)
          [] n = "chain" -> Rec(<<F(v_, Str), F(k_, OptOf(Ref("chain")))>>)
Res(ty) == IF ty.k = "ref" THEN T(ty.n) ELSE ty
RECURSIVE Default(_)
Default(ty0) == LET ty == Res(ty0) IN
    CASE ty.k = "int" -> <<48>> [] ty.k = "bool" -> FALSE [] ty.k = "dbl" -> <<48>> [] ty.k = "enum" -> red_
      [] ty.k = "map" -> {} [] ty.k = "array" -> [i \in 1..ty.n |-> Default(ty.e)]
      [] ty.k = "tuple" -> [i \in DOMAIN ty.es |-> Default(ty.es[i])]
      [] ty.k = "rec" -> [i \in DOMAIN ty.f |-> Default(ty.f[i].t)]
      [] OTHER -> <<>>
\* -------------------------------------------------------------------- reader
At(s, i) == IF i <= Len(s) THEN s[i] ELSE -1
Good(v, i, fr) == [ok |-> TRUE, fr |-> fr, i |-> i, v |-> v]
Fail(i) == [ok |-> FALSE, fr |-> FALSE, i |-> i, v |-> 0]
RECURSIVE Skip(_, _)
Skip(s, i) == IF At(s, i) \in Ws THEN Skip(s, i + 1) ELSE i
RECURSIVE Run(_, _)
Run(s, i) == IF At(s, i) \in NumCh THEN Run(s, i + 1) ELSE i
Lit(s, i, w) == \A j \in DOMAIN w : At(s, i + j - 1) = w[j]
Lower(c) == IF c \in 65..90 THEN c + 32 ELSE c
LitCi(s, i, w) == \A j \in DOMAIN w : Lower(At(s, i + j - 1)) = w[j]
\* first position at which the text stops following w (for telling truncation from corruption)
LitStop(s, i, w) == LET bad == {j \in DOMAIN w : Lower(At(s, i + j - 1)) # w[j]} IN i - 1 + (CHOOSE j \in bad : \A l \in bad : j <= l)
Hex4(s, i) == IF \A j \in 0..3 : Hex(At(s, i + j)) >= 0
              THEN Hex(At(s, i)) * 4096 + Hex(At(s, i + 1)) * 256 + Hex(At(s, i + 2)) * 16 + Hex(At(s, i + 3)) ELSE -1
HexStop(s, i) == CHOOSE j \in i..(i + 3) : Hex(At(s, j)) < 0 /\ \A l \in i..(j - 1) : Hex(At(s, l)) >= 0
Short(c) == CASE c = 34 -> 34 [] c = 92 -> 92 [] c = 47 -> 47 [] c = 98 -> 8 [] c = 102 -> 12 [] c = 110 -> 10 [] c = 114 -> 13 [] c = 116 -> 9 [] OTHER -> -1
RECURSIVE StrLoop(_, _, _, _)
StrLoop(s, i, acc, fr) ==
    LET c == At(s, i) IN
    IF c = -1 THEN Fail(i)
    ELSE IF c = QU THEN Good(acc, i + 1, fr)
    ELSE IF c # BS THEN StrLoop(s, i + 1, Append(acc, c), fr \/ c < 32)
    ELSE LET e == At(s, i + 1) IN
         IF e = -1 THEN Fail(i + 1)
         ELSE IF Short(e) >= 0 THEN StrLoop(s, i + 2, Append(acc, Short(e)), fr)
         ELSE IF e # 117 THEN StrLoop(s, i + 2, Append(acc, e), TRUE)
         ELSE LET u == Hex4(s, i + 2) IN
              IF u < 0 THEN Fail(HexStop(s, i + 2))
              ELSE IF u \in 55296..56319 THEN
                   LET l == IF At(s, i + 6) = BS /\ At(s, i + 7) = 117 THEN Hex4(s, i + 8) ELSE -1 IN
                   IF l \in 56320..57343 THEN StrLoop(s, i + 12, acc \o Utf8(65536 + (u - 55296) * 1024 + (l - 56320)), fr)
                   ELSE StrLoop(s, i + 6, acc, TRUE)
              ELSE IF u \in 56320..57343 THEN StrLoop(s, i + 6, acc, TRUE)
              ELSE StrLoop(s, i + 6, acc \o Utf8(u), fr)
ReadStr(s, i) == IF At(s, i) # QU THEN Fail(i) ELSE StrLoop(s, i + 1, <<>>, FALSE)
\* numbers keep their decimal text as their value (TLC integers are 32 bits)
AllDigits(s, i, e) == i < e /\ \A j \in i..(e - 1) : s[j] \in Digit
StrictInt(s, i, e) == LET d == IF At(s, i) = MI THEN i + 1 ELSE i IN
                      AllDigits(s, d, e) /\ (e = d + 1 \/ s[d] # 48)
MagLE(x, y) == IF Len(x) # Len(y) THEN Len(x) < Len(y)
               ELSE LET df == {j \in DOMAIN x : x[j] # y[j]} IN
                    df = {} \/ LET j == CHOOSE j \in df : \A l \in df : j <= l IN x[j] < y[j]
IntFits(s, i, e, ty) == LET neg == s[i] = MI IN MagLE(SubSeq(s, IF neg THEN i + 1 ELSE i, e - 1), IF neg THEN ty.lo ELSE ty.hi)
IntVal(s, i, e) == IF s[i] = MI /\ e = i + 2 /\ s[i + 1] = 48 THEN <<48>> ELSE SubSeq(s, i, e - 1)
RECURSIVE DigitsEnd(_, _)
DigitsEnd(s, i) == IF At(s, i) \in Digit THEN DigitsEnd(s, i + 1) ELSE i
NumShape(s, i, e, strict) == \* [-] int [frac] [exp]
    LET p0 == IF At(s, i) = MI \/ (~strict /\ At(s, i) = 43) THEN i + 1 ELSE i
        p1 == DigitsEnd(s, p0)
        p2 == IF At(s, p1) = 46 THEN DigitsEnd(s, p1 + 1) ELSE p1
        sgn == IF At(s, p2 + 1) \in {43, 45} THEN p2 + 2 ELSE p2 + 1
        p3 == IF At(s, p2) \in {69, 101} THEN DigitsEnd(s, sgn) ELSE p2
        intd == p1 - p0  fracd == IF p2 > p1 THEN p2 - p1 - 1 ELSE 0 IN
    /\ p3 = e
    /\ IF strict THEN intd > 0 /\ (intd = 1 \/ s[p0] # 48) /\ (p2 > p1 => fracd > 0) /\ (p3 > p2 => p3 > sgn)
       ELSE intd + fracd > 0
\* is the number at i..e-1 (of strict shape) certainly within the range of the floating point type?
RECURSIVE Drop0(_), NatOf(_, _)
Drop0(d) == IF d = <<>> \/ d[1] # 48 THEN d ELSE Drop0(Tail(d))
NatOf(d, acc) == IF d = <<>> THEN acc ELSE NatOf(Tail(d), acc * 10 + d[1] - 48)
LexLE(x, y) == LET m == IF Len(x) < Len(y) THEN Len(x) ELSE Len(y)
                   df == {j \in 1..m : x[j] # y[j]} IN
               IF df = {} THEN Len(x) <= Len(y) ELSE LET j == CHOOSE j \in df : \A l \in df : j <= l IN x[j] < y[j]
InRange(s, i, e, ty) ==
    LET p0 == IF At(s, i) = MI THEN i + 1 ELSE i
        p1 == DigitsEnd(s, p0)
        p2 == IF At(s, p1) = 46 THEN DigitsEnd(s, p1 + 1) ELSE p1
        raw == SubSeq(s, p0, p1 - 1) \o SubSeq(s, p1 + 1, p2 - 1)
        dg == Drop0(raw)
        sgn == IF At(s, p2 + 1) \in {43, 45} THEN p2 + 2 ELSE p2 + 1
        ed == Drop0(SubSeq(s, sgn, e - 1))
        ex == IF p2 = e THEN 0 ELSE IF At(s, p2 + 1) = MI THEN -NatOf(ed, 0) ELSE NatOf(ed, 0)
        x == (p1 - p0) - (Len(raw) - Len(dg)) + ex IN
    IF dg = <<>> THEN TRUE ELSE IF p2 < e /\ Len(ed) > 6 THEN FALSE
    ELSE IF x = ty.x THEN LexLE(dg, ty.hi) ELSE IF x = ty.n THEN ~LexLE(dg, ty.lo) \/ dg = ty.lo ELSE x < ty.x /\ x > ty.n
ReadNum(s, i, ty) ==
    LET e == Run(s, i)  at == IF e > Len(s) THEN e ELSE i IN
    IF e = i THEN Fail(i)
    ELSE IF ty.k = "dbl"
    THEN IF NumShape(s, i, e, TRUE) THEN Good(SubSeq(s, i, e - 1), e, ~InRange(s, i, e, ty))
         ELSE IF NumShape(s, i, e, FALSE) THEN Good(<<48>>, e, TRUE) ELSE Fail(at)
    ELSE IF StrictInt(s, i, e) THEN IF IntFits(s, i, e, ty) THEN Good(IntVal(s, i, e), e, s[i] = MI /\ ty.lo = <<48>>) ELSE Fail(at)
    ELSE IF NumShape(s, i, e, FALSE) THEN Good(<<48>>, e, TRUE) ELSE Fail(at)
ReadBool(s, i) == IF Lit(s, i, true_) THEN Good(TRUE, i + 4, FALSE) ELSE IF Lit(s, i, false_) THEN Good(FALSE, i + 5, FALSE)
                  ELSE IF LitCi(s, i, true_) THEN Good(TRUE, i + 4, TRUE) ELSE IF LitCi(s, i, false_) THEN Good(FALSE, i + 5, TRUE)
                  ELSE IF At(s, i) \in {48, 49} THEN Good(TRUE, i + 1, TRUE)
                  ELSE Fail(IF Lower(At(s, i)) = 116 THEN LitStop(s, i, true_) ELSE LitStop(s, i, false_))
RECURSIVE Read(_, _, _), ReadElems(_, _, _, _, _), ReadMembers(_, _, _, _, _)
\* elements of a list/array/tuple from position i (after '[' or ','); acc: values so far
ReadElems(ty, s, i, acc, fr) ==
    LET n == Len(acc) + 1 IN
    IF (ty.k = "array" /\ n > ty.n) \/ (ty.k = "tuple" /\ n > Len(ty.es)) THEN Fail(Skip(s, i))
    ELSE LET r == Read(IF ty.k = "tuple" THEN ty.es[n] ELSE ty.e, s, i) IN
         IF ~r.ok THEN r
         ELSE LET j == Skip(s, r.i)  acc2 == Append(acc, r.v)  c == At(s, j)  fr2 == fr \/ r.fr IN
              IF c = CO THEN ReadElems(ty, s, j + 1, acc2, fr2)
              ELSE IF c # RB THEN Fail(j)
              ELSE IF ty.k = "tuple" /\ n # Len(ty.es) THEN Fail(j)
              ELSE IF ty.k = "array" /\ n < ty.n THEN Good(acc2 \o [x \in 1..(ty.n - n) |-> Default(ty.e)], j + 1, TRUE)
              ELSE Good(acc2, j + 1, fr2)
FieldIdx(ty, key) == {x \in DOMAIN ty.f : ty.f[x].n = key}
\* members of an object from position i; acc: map: set of pairs, record: [vals, seen]
ReadMembers(ty, s, i, acc, fr) ==
    LET k0 == Skip(s, i)  kr == ReadStr(s, k0) IN
    IF ~kr.ok THEN kr
    ELSE LET c0 == Skip(s, kr.i) IN
         IF ty.k = "rec" /\ FieldIdx(ty, kr.v) = {} /\ ~kr.fr THEN Fail(c0)
         ELSE IF At(s, c0) # CL THEN Fail(c0)
         ELSE LET fi == IF ty.k = "rec" /\ FieldIdx(ty, kr.v) # {} THEN CHOOSE x \in FieldIdx(ty, kr.v) : TRUE ELSE 1
                  r == Read(IF ty.k = "rec" THEN ty.f[fi].t ELSE ty.e, s, c0 + 1) IN
              IF ~r.ok THEN r
              ELSE LET j == Skip(s, r.i)  c == At(s, j)
                       dup == IF ty.k = "rec" THEN fi \in acc.seen ELSE \E p \in acc : p[1] = kr.v
                       acc2 == IF ty.k = "rec" THEN [vals |-> [acc.vals EXCEPT ![fi] = r.v], seen |-> acc.seen \union {fi}]
                               ELSE IF dup THEN acc ELSE acc \union {<<kr.v, r.v>>}
                       fr2 == fr \/ r.fr \/ kr.fr \/ dup IN
                   IF c = CO THEN ReadMembers(ty, s, j + 1, acc2, fr2)
                   ELSE IF c = RC THEN Good(IF ty.k = "rec" THEN acc2.vals ELSE acc2, j + 1, fr2)
                   ELSE Fail(j)
Read(ty0, s, i0) ==
    LET ty == Res(ty0)  i == Skip(s, i0) IN
    CASE ty.k \in {"int", "dbl"} -> ReadNum(s, i, ty)
      [] ty.k = "bool" -> ReadBool(s, i)
      [] ty.k = "str" -> ReadStr(s, i)
      [] ty.k = "enum" -> LET r == ReadStr(s, i) IN
            IF ~r.ok THEN r ELSE IF \E x \in DOMAIN ty.names : ty.names[x] = r.v THEN Good(r.v, r.i, r.fr \/ \E j \in i..(r.i - 1) : s[j] = BS)
            ELSE IF r.fr THEN Good(red_, r.i, TRUE) ELSE Fail(i)
      [] ty.k = "opt" -> IF Lit(s, i, null_) THEN Good(<<>>, i + 4, FALSE)
                         ELSE IF LitCi(s, i, null_) THEN Good(<<>>, i + 4, TRUE)
                         ELSE LET r == Read(ty.e, s, i) IN
                              IF r.ok THEN Good(<<r.v>>, r.i, r.fr) ELSE IF Lower(At(s, i)) = 110 THEN Fail(LitStop(s, i, null_)) ELSE r
      [] ty.k \in {"list", "array", "tuple"} ->
            IF At(s, i) # LB THEN Fail(i)
            ELSE LET j == Skip(s, i + 1) IN
                 IF At(s, j) = RB THEN Good(IF ty.k = "list" THEN <<>> ELSE Default(ty), j + 1, ty.k # "list")
                 ELSE ReadElems(ty, s, i + 1, <<>>, FALSE)
      [] OTHER ->
            IF At(s, i) # LC THEN Fail(i)
            ELSE LET j == Skip(s, i + 1) IN
                 IF At(s, j) = RC THEN Good(IF ty.k = "rec" THEN Default(ty) ELSE {}, j + 1, FALSE)
                 ELSE ReadMembers(ty, s, i + 1, IF ty.k = "rec" THEN [vals |-> Default(ty), seen |-> {}] ELSE {}, FALSE)
\* the whole text: one value and nothing but white space after it
Verdict(ty, s) == LET r == Read(ty, s, 1) IN
    IF ~r.ok THEN [d |-> "reject", v |-> 0, i |-> r.i]
    ELSE LET j == Skip(s, r.i) IN
         IF j <= Len(s) THEN [d |-> "reject", v |-> 0, i |-> j]
         ELSE IF r.fr THEN [d |-> "free", v |-> 0, i |-> j] ELSE [d |-> "value", v |-> r.v, i |-> j]
=============================================================================
