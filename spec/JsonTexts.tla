----------------------------- MODULE JsonTexts -----------------------------
(* Every text over an alphabet, as long as it can still become a value, and  *)
(* every way of leaving that path by one character.                          *)
EXTENDS TypedJson, Json
CONSTANTS Type, Alphabet, MaxLen
VARIABLES s
Init == s = <<>>
Ver == Verdict(T(Type), s)
Viable == LET r == Ver IN r.d # "reject" \/ r.i > Len(s)
Next == Len(s) < MaxLen /\ Viable /\ \E c \in Alphabet : s' = Append(s, c)
\* a text that is a value is not one after losing its last character, unless it is a number or ends in blanks
PrefixFree == LET r == Ver IN (r.d = "value" /\ Len(s) > 1 /\ s[Len(s)] \notin Ws /\ T(Type).k \notin {"int", "dbl"})
                => IF T(Type).k = "opt" /\ s[Len(s)] \in Digit THEN TRUE ELSE Verdict(T(Type), SubSeq(s, 1, Len(s) - 1)).d = "reject"
Emit == LET r == Ver IN PrintT("@@" \o ToJson([s |-> s, d |-> r.d, v |-> IF r.d = "value" THEN r.v ELSE 0]))
=============================================================================
