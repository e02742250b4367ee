------------------------------ MODULE JsonGen ------------------------------
(* Values of every type, rendered with every freedom the standard leaves,    *)
(* then damaged.  A seed decides all choices.                                *)
EXTENDS TypedJson, Json
CONSTANTS Types, Seeds, Mode   \* Mode: "clean" | "damaged"
VARIABLES ty, seed, done
vars == <<ty, seed, done>>
H(x, i) == ((x % 20011) * 7919 + i * 104729 + 12345) % 20011
Pick(sq, x) == sq[(x % Len(sq)) + 1]
CP == <<97, 0, 34, 92, 47, 8, 10, 31, 32, 98, 127, 128, 117, 233, 2047, 2048, 110, 26085, 55295, 57344, 65535, 65536, 128512, 1114111, 123, 93, 44, 58, 48>>
Nums == <<"0", "-1", "7", "127", "-128", "255", "2147483647", "-2147483648", "9223372036854775807", "-9223372036854775808", "18446744073709551615", "42", "1000000">>
Dbls == <<"0", "-0", "1", "0.1", "-2.5", "1e300", "5e-324", "1.7976931348623157e308", "0.30000000000000004", "1e21", "123456789.125", "2.2250738585072014e-308", "-1e-7", "3.4028234663852886e38", "1e-45", "16777217", "0.1e1", "1E+2", "9007199254740993">>
FltDbls == <<"0", "-0", "1", "0.1", "-2.5", "1e30", "1e-45", "3.4028234e38", "16777216", "1.17549435e-38", "-1e-7", "0.1e1", "1E+2">>
Cps(x) == LET n == x % 6 IN [i \in 1..n |-> Pick(CP, H(x, i))]
RECURSIVE Cat(_)
Cat(sq) == IF sq = <<>> THEN <<>> ELSE Head(sq) \o Cat(Tail(sq))
Bytes(cps) == Cat([i \in DOMAIN cps |-> Utf8(cps[i])])
Key(x, i) == <<96 + i>> \o Cps(H(x, 50 + i))   \* distinct for distinct i
IntPick(t, x) == LET fits(n) == IntFits(B(n), 1, Len(B(n)) + 1, t)
                     ok == SelectSeq(Nums, LAMBDA n : IntFits(B(n), 1, Len(B(n)) + 1, t)) IN B(Pick(ok, x))
\* a value in generator form: strings as code points, maps as sequences of pairs
RECURSIVE Gen(_, _, _)
Gen(t0, x, d) == LET t == Res(t0)  n == IF d > 3 THEN 0 ELSE x % 4 IN
    CASE t.k = "int" -> IntPick(t, x)
      [] t.k = "dbl" -> B(IF ty = "flt" THEN Pick(FltDbls, x) ELSE Pick(Dbls, x))
      [] t.k = "bool" -> x % 2 = 0
      [] t.k = "str" -> Cps(x)
      [] t.k = "enum" -> Pick(t.names, x)
      [] t.k = "opt" -> IF n = 0 THEN <<>> ELSE <<Gen(t.e, H(x, 1), d + 1)>>
      [] t.k = "list" -> [i \in 1..n |-> Gen(t.e, H(x, i), d + 1)]
      [] t.k = "array" -> [i \in 1..t.n |-> Gen(t.e, H(x, i), d + 1)]
      [] t.k = "tuple" -> [i \in DOMAIN t.es |-> Gen(t.es[i], H(x, i), d + 1)]
      [] t.k = "map" -> [i \in 1..n |-> <<Key(x, i), Gen(t.e, H(x, i), d + 1)>>]
      [] OTHER -> [i \in DOMAIN t.f |-> Gen(t.f[i].t, H(x, i), d + 1)]
RECURSIVE ValueOf(_, _)
ValueOf(t0, g) == LET t == Res(t0) IN
    CASE t.k = "str" -> Bytes(g)
      [] t.k = "int" -> IF g = B("-0") THEN <<48>> ELSE g
      [] t.k = "opt" -> IF g = <<>> THEN <<>> ELSE <<ValueOf(t.e, g[1])>>
      [] t.k \in {"list", "array"} -> [i \in DOMAIN g |-> ValueOf(t.e, g[i])]
      [] t.k = "tuple" -> [i \in DOMAIN g |-> ValueOf(t.es[i], g[i])]
      [] t.k = "map" -> {<<Bytes(g[i][1]), ValueOf(t.e, g[i][2])>> : i \in DOMAIN g}
      [] t.k = "rec" -> [i \in DOMAIN g |-> ValueOf(t.f[i].t, g[i])]
      [] OTHER -> g
\* ---- rendering
Blank(x) == CASE x % 5 = 0 -> <<32>> [] x % 5 = 1 -> <<10, 9>> [] x % 5 = 2 -> <<13, 10, 32>> [] OTHER -> <<>>
HexD(n, low) == IF n < 10 THEN 48 + n ELSE IF low THEN 87 + n ELSE 55 + n
UEsc(u, x) == <<92, 117, HexD(u \div 4096, x % 2 = 0), HexD((u \div 256) % 16, x % 3 = 0), HexD((u \div 16) % 16, x % 2 = 1), HexD(u % 16, x % 5 = 0)>>
ShortFor(cp) == CASE cp = 34 -> 34 [] cp = 92 -> 92 [] cp = 47 -> 47 [] cp = 8 -> 98 [] cp = 12 -> 102 [] cp = 10 -> 110 [] cp = 13 -> 114 [] cp = 9 -> 116 [] OTHER -> -1
RChar(cp, x) ==
    IF x % 3 = 0 /\ cp >= 32 /\ cp # 34 /\ cp # 92 THEN Utf8(cp)
    ELSE IF x % 3 = 1 /\ ShortFor(cp) >= 0 THEN <<92, ShortFor(cp)>>
    ELSE IF cp < 65536 THEN UEsc(cp, x)
    ELSE UEsc(55296 + (cp - 65536) \div 1024, x) \o UEsc(56320 + ((cp - 65536) % 1024), x + 1)
RStr(cps, x) == <<34>> \o Cat([i \in DOMAIN cps |-> RChar(cps[i], H(x, i) \div 7)]) \o <<34>>
Plain(w, x) == \* a word of plain characters, sometimes escaped when it is a key
    IF x % 7 = 0 THEN RStr(w, x) ELSE <<34>> \o w \o <<34>>
RECURSIVE Join(_, _)
Join(sq, x) == IF sq = <<>> THEN <<>> ELSE IF Len(sq) = 1 THEN sq[1] ELSE sq[1] \o Blank(H(x, 3) \div 3) \o <<44>> \o Blank(H(x, 4) \div 3) \o Join(Tail(sq), H(x, 5))
Rot(sq, k) == [i \in 1..Len(sq) |-> sq[((i + k - 1) % Len(sq)) + 1]]
RECURSIVE Render(_, _, _)
Render(t0, g, x) == LET t == Res(t0)  b1 == Blank(H(x, 90) \div 3)  b2 == Blank(H(x, 91) \div 3)  b3 == Blank(H(x, 92) \div 3) IN
    CASE t.k \in {"int", "dbl"} -> g
      [] t.k = "bool" -> IF g THEN true_ ELSE false_
      [] t.k = "str" -> RStr(g, x)
      [] t.k = "enum" -> <<34>> \o g \o <<34>>
      [] t.k = "opt" -> IF g = <<>> THEN null_ ELSE Render(t.e, g[1], H(x, 1))
      [] t.k \in {"list", "array", "tuple"} ->
            <<91>> \o b1 \o Join([i \in DOMAIN g |-> Render(IF t.k = "tuple" THEN t.es[i] ELSE t.e, g[i], H(x, i))], x) \o b2 \o <<93>>
      [] t.k = "map" -> <<123>> \o b1 \o Join(Rot([i \in DOMAIN g |-> RStr(g[i][1], H(x, i)) \o b3 \o <<58>> \o b2 \o Render(t.e, g[i][2], H(x, 20 + i))], x), x) \o b2 \o <<125>>
      [] OTHER -> <<123>> \o b1 \o Join(Rot([i \in DOMAIN g |-> Plain(t.f[i].n, H(x, 40 + i)) \o b3 \o <<58>> \o b2 \o Render(t.f[i].t, g[i], H(x, 20 + i))], x), x) \o b2 \o <<125>>
\* ---- damage
Junk == <<44, 93, 125, 34, 92, 58, 123, 91, 48, 97, 0, 255, 32, 45, 110, 117>>
Damage(tx, x) == LET p == (H(x, 7) % Len(tx)) + 1  c == Pick(Junk, H(x, 8)) IN
    CASE x % 4 = 0 -> SubSeq(tx, 1, p - 1)
      [] x % 4 = 1 -> SubSeq(tx, 1, p - 1) \o SubSeq(tx, p + 1, Len(tx))
      [] x % 4 = 2 -> SubSeq(tx, 1, p - 1) \o <<c>> \o SubSeq(tx, p, Len(tx))
      [] OTHER -> SubSeq(tx, 1, p - 1) \o <<c>> \o SubSeq(tx, p + 1, Len(tx))
Init == ty \in Types /\ seed \in Seeds /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED <<ty, seed>>
G == Gen(T(ty), H(seed, 11), 0)
Clean == Blank(seed) \o Render(T(ty), G, H(seed, 12)) \o Blank(seed \div 5)
\* the reader inverts the writer, whatever the style
Inverts == Mode = "clean" => LET r == Verdict(T(ty), Clean) IN
    /\ r.d = "value"
    /\ IF T(ty).k = "dbl" THEN TRUE ELSE r.v = ValueOf(T(ty), G)
\* no strict prefix of a bracketed or quoted text is a value
Prefixes == Mode = "clean" /\ T(ty).k \notin {"int", "dbl", "opt"} => LET tx == Render(T(ty), G, H(seed, 12)) IN
    \A n \in {0, 1, Len(tx) \div 3, Len(tx) \div 2, Len(tx) - 1} : Verdict(T(ty), SubSeq(tx, 1, n)).d = "reject"
Emit == done => LET tx == IF Mode = "clean" THEN Clean ELSE Damage(Clean, H(seed, 13))  r == Verdict(T(ty), tx) IN
    PrintT("@@" \o ToJson([t |-> ty, s |-> tx, d |-> r.d, v |-> IF r.d = "value" THEN r.v ELSE 0]))
=============================================================================
