---------------------------- MODULE PathParams ----------------------------
(* Conversion of the text of a path parameter to a requested type: the value   *)
(* of the whole text, or failure.  Numbers are digit sequences, since the       *)
(* bounds of the 64-bit types lie outside the integers of TLC.                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
D == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
RECURSIVE Str(_)
Str(q) == IF q = <<>> THEN "" ELSE D[Head(q) + 1] \o Str(Tail(q))
\* largest magnitude of each type, negative and not (<<>>: none)
Bound(ty, neg) ==
  CASE ty = "i16" -> <<3, 2, 7, 6, IF neg THEN 8 ELSE 7>>
    [] ty = "u16" -> IF neg THEN <<>> ELSE <<6, 5, 5, 3, 5>>
    [] ty = "i32" -> <<2, 1, 4, 7, 4, 8, 3, 6, 4, IF neg THEN 8 ELSE 7>>
    [] ty = "u32" -> IF neg THEN <<>> ELSE <<4, 2, 9, 4, 9, 6, 7, 2, 9, 5>>
    [] ty = "i64" -> <<9, 2, 2, 3, 3, 7, 2, 0, 3, 6, 8, 5, 4, 7, 7, 5, 8, 0, IF neg THEN 8 ELSE 7>>
    [] ty = "u64" -> IF neg THEN <<>> ELSE <<1, 8, 4, 4, 6, 7, 4, 4, 0, 7, 3, 7, 0, 9, 5, 5, 1, 6, 1, 5>>
Ints == {"i16", "u16", "i32", "u32", "i64", "u64"}
RECURSIVE Strip(_)
Strip(q) == IF Len(q) > 1 /\ Head(q) = 0 THEN Strip(Tail(q)) ELSE q
RECURSIVE Leq(_, _)
Leq(a, b) == IF Len(a) # Len(b) THEN Len(a) < Len(b) ELSE IF a = <<>> THEN TRUE ELSE IF Head(a) # Head(b) THEN Head(a) < Head(b) ELSE Leq(Tail(a), Tail(b))
RECURSIVE Inc(_)
Inc(q) == IF q = <<>> THEN <<1>> ELSE IF q[Len(q)] < 9 THEN [q EXCEPT ![Len(q)] = @ + 1] ELSE Append(Inc(SubSeq(q, 1, Len(q) - 1)), 0)
RECURSIVE Dec(_)
Dec(q) == IF q[Len(q)] > 0 THEN [q EXCEPT ![Len(q)] = @ - 1] ELSE Append(Dec(SubSeq(q, 1, Len(q) - 1)), 9)
\* a text: sign, digits, what follows them
Text(x) == (IF x.neg THEN "-" ELSE "") \o Str(x.d) \o x.tail
Tails == {"", "a", "x1", ".", ".5", "e", "-", "-3", "+", "_", "%20", "~"}
AllBounds == {Bound(t, n) : t \in Ints, n \in BOOLEAN} \ {<<>>}
Digits == {<<0>>, <<7>>, <<0, 0, 7>>, <<1, 0>>, <<4, 0, 9, 6>>, <<1, 0, 0, 0, 0, 0>>, <<>>}
          \cup AllBounds \cup {Inc(b) : b \in AllBounds} \cup {Dec(b) : b \in AllBounds} \cup {<<0, 0>> \o b : b \in AllBounds} \cup {Append(b, 0) : b \in AllBounds}
\* conversion to an integer type
Fail == "!"
ToInt(ty, x) == IF x.tail # "" \/ x.d = <<>> THEN Fail
                ELSE LET v == Strip(x.d)  b == Bound(ty, x.neg) IN
                     IF b = <<>> \/ ~Leq(v, b) THEN Fail ELSE (IF x.neg /\ v # <<0>> THEN "-" ELSE "") \o Str(v)
Words == {"true", "TRUE", "True", "tRuE", "false", "FALSE", "fAlse", "0", "1", "2", "00", "10", "01", "truex", "falsey", "tru", "fals", "t", "f", "yes", "1x", "0x", "true1", "false0", "Red", "Green", "Blue", "red", "Gree", "Greenx", "Green-"}
Yes == {"true", "TRUE", "True", "tRuE", "1"}   No == {"false", "FALSE", "fAlse", "0"}
ToBool(s) == IF s \in Yes THEN "1" ELSE IF s \in No THEN "0" ELSE Fail
ToEnum(s) == CASE s = "Red" -> "0" [] s = "Green" -> "5" [] s = "Blue" -> "6" [] OTHER -> Fail
\* decimal fractions: the text denotes d.f * 10^e; the nearest value of the type is computed by the check
RealDigits == {<<0>>, <<1>>, <<2, 5>>, <<0, 0, 1>>, <<1, 6, 7, 7, 7, 2, 1, 7>>, <<9, 0, 0, 7, 1, 9, 9, 2, 5, 4, 7, 4, 0, 9, 9, 3>>}
Exps == {"", "e0", "E5", "e-7", "e+12", "e22"}
Real(x) == (IF x.neg THEN "-" ELSE "") \o Str(x.d) \o (IF x.f = <<>> THEN "" ELSE "." \o Str(x.f)) \o x.e
VARIABLES c
Init == c \in {[k |-> "int", ty |-> ty, x |-> [neg |-> n, d |-> d, tail |-> t]] : ty \in Ints, n \in BOOLEAN, d \in Digits, t \in Tails}
             \cup {[k |-> "real", ty |-> ty, x |-> [neg |-> n, d |-> d, f |-> f, e |-> e, tail |-> t]] : ty \in {"flt", "dbl"}, n \in BOOLEAN,
                    d \in RealDigits, f \in RealDigits \cup {<<>>}, e \in Exps, t \in {"", "x", "-", "e", ".."}}
             \cup {[k |-> "word", ty |-> ty, x |-> w] : ty \in {"bool", "enum"}, w \in Words}
\* left open: a minus sign in front of zero for a type without negative values; a text that is no path segment
Open == c.k = "int" /\ c.x.neg /\ Bound(c.ty, TRUE) = <<>> /\ Strip(c.x.d) = <<0>>
Empty == c.k = "int" /\ IF Text(c.x) = "" THEN TRUE ELSE c.x.d = <<>> /\ c.x.tail = "-3" /\ ~c.x.neg
Next == UNCHANGED c
Result == IF c.k = "real" THEN (IF c.x.tail = "" THEN Real(c.x) ELSE Fail) ELSE IF c.k = "int" THEN ToInt(c.ty, c.x) ELSE IF c.ty = "bool" THEN ToBool(c.x) ELSE ToEnum(c.x)
\* the conversion is exact: a result read back denotes the same number, and widening a type never loses a result
Wider(a, b) == <<a, b>> \in {<<"i16", "i32">>, <<"i32", "i64">>, <<"u16", "u32">>, <<"u32", "u64">>, <<"u16", "i32">>, <<"u32", "i64">>}
Exact == c.k = "int" /\ Result # Fail => Result = (IF c.x.neg /\ Strip(c.x.d) # <<0>> THEN "-" ELSE "") \o Str(Strip(c.x.d))
Widening == c.k = "int" /\ Result # Fail => \A t \in Ints : Wider(c.ty, t) => ToInt(t, c.x) = Result
Edges == c.k = "int" /\ c.x.tail = "" /\ c.x.d # <<>> /\ Bound(c.ty, c.x.neg) # <<>> =>
            (Result = Fail) = Leq(Inc(Bound(c.ty, c.x.neg)), Strip(c.x.d))
Emit == (~Open /\ ~Empty) => PrintT("@@" \o ToJson([ty |-> c.ty, s |-> IF c.k = "int" THEN Text(c.x) ELSE IF c.k = "real" THEN Real(c.x) \o c.x.tail ELSE c.x, r |-> Result]))
=============================================================================
