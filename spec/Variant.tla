------------------------------ MODULE Variant ------------------------------
(* Value containers that hold one alternative or nothing:                    *)
(*   "variant"  UninitializedNonVoidVariant<A, B, void>  (A: moves and       *)
(*              copies never fail, B: construction and copies may throw)     *)
(*   "dup"      UninitializedNonVoidVariant<A, B, void, A>  (repeated type)  *)
(*   "trivial"  UninitializedNonVoidVariant<int, P, void>                    *)
(*   "uninit"   Uninitialized<B>    "try"  Try<B>    "tryvoid" Try<void>     *)
(* A slot is absent (no container object), a container that is empty, or one *)
(* that holds alternative a with value v; v = 0: an object moved from.       *)
(* The objects stored are explicit: obj[p] is the identity of the object     *)
(* living in slot p, born/died count constructions and destructions in       *)
(* place, so that the storage discipline is part of the state.               *)
EXTENDS Integers, FiniteSets, Sequences, TLC, Json
CONSTANTS Flavour, NP, MaxV, L, Record, CommitFirst
(* CommitFirst = TRUE: the algorithm that records the new index before the   *)
(* value is constructed (a construction that throws leaves a lie behind)     *)
P == 1..NP
Absent == -2
Empty == -1
Variantish == Flavour \in {"variant", "dup", "trivial"}
Tryish == Flavour \in {"try", "tryvoid"}
Alts == CASE Flavour = "dup" -> 0..3 [] Variantish -> 0..2 [] Flavour = "uninit" -> {0} [] OTHER -> {0, 1}
VoidAlt(a) == (Variantish /\ a = 2) \/ (Flavour = "tryvoid" /\ a = 0)
Throws(a) == (Flavour \in {"variant", "dup"} /\ a = 1) \/ (Flavour \in {"try", "uninit"} /\ a = 0)
CopyThrows(a) == Flavour \in {"variant", "dup"} /\ a = 1
Counted(a) == ~VoidAlt(a) /\ Flavour \in {"variant", "dup", "try", "uninit"} /\ ~(Tryish /\ a = 1)
VARIABLES s,      \* slot -> [a, v]
          inst,   \* slot -> number of stored objects alive in the slot (0 or 1)
          bad,    \* an object was destroyed that was not there
          next, steps, hist
vars == <<s, inst, bad, next, steps, hist>>
None == [a |-> Absent, v |-> 0]
E0 == [a |-> Empty, v |-> 0]
Init == s = [p \in P |-> None] /\ inst = [p \in P |-> 0] /\ bad = FALSE /\ next = 1 /\ steps = 0 /\ hist = <<>>
Live(p) == s[p].a # Absent
Val(a, v) == [a |-> a, v |-> IF VoidAlt(a) THEN 0 ELSE v]
Moved(x) == IF Flavour = "uninit" THEN (IF x.a < 0 THEN x ELSE E0)
            ELSE IF Flavour = "trivial" \/ x.a < 0 THEN x ELSE [x EXCEPT !.v = 0]
Held(x) == IF x.a >= 0 /\ Counted(x.a) THEN 1 ELSE 0
(* what really lives in each slot after a step: r is the intended content,   *)
(* lie the slots whose recorded alternative has no object behind it          *)
Step(name, p, q, a, v, thr, r, lies, ret) ==
    /\ s' = r /\ inst' = [x \in P |-> IF x \in lies THEN 0 ELSE Held(r[x])]
    \* every stored object of a changed slot is destroyed exactly when it was there
    /\ bad' = (bad \/ \E x \in P : inst[x] # Held(s[x]))
    /\ steps' = IF Record THEN steps + 1 ELSE 0
    /\ hist' = IF Record THEN Append(hist, [op |-> name, p |-> p, q |-> q, a |-> a, v |-> v, thr |-> thr,
                 exp |-> [s |-> r, live |-> Cardinality({x \in P : Held(r[x]) = 1}), ret |-> ret]]) ELSE <<>>
Put(name, p, a, thr, absent) ==   \* construct a new value of alternative a in slot p
    LET lie == [a |-> a, v |-> next]
        failed == IF absent THEN None ELSE IF CommitFirst THEN lie ELSE E0 IN
    /\ next <= MaxV /\ next' = next + 1 /\ (thr => Throws(a))
    /\ IF thr THEN Step(name, p, 0, a, next, TRUE, [s EXCEPT ![p] = failed], IF CommitFirst /\ ~absent THEN {p} ELSE {}, -1)
       ELSE Step(name, p, 0, a, next, FALSE, [s EXCEPT ![p] = Val(a, next)], {}, 0)
Keep == UNCHANGED next
Default(p) == ~Live(p) /\ Keep /\ Step("default", p, 0, 0, 0, FALSE, [s EXCEPT ![p] = E0], {}, 0)
Converts(a) == (Flavour \in {"variant", "trivial"} /\ a \in {0, 1}) \/ Flavour = "try" \/ (Flavour = "tryvoid" /\ a = 1)
Value(p, a, thr) == ~Live(p) /\ Converts(a) /\ Put("value", p, a, thr, TRUE)
Emplace(p, a, thr) == Live(p) /\ Put("emplace", p, a, thr, FALSE)
EmplaceT(p, a, thr) == Live(p) /\ Variantish /\ a # 3 /\ Put("emplacet", p, a, thr, FALSE)
AssignVal(p, a, thr) == Live(p) /\ Variantish /\ Converts(a) /\ Put("assignval", p, a, thr, FALSE)
CopyCtor(p, q, thr) == ~Live(p) /\ Live(q) /\ Variantish /\ Keep
    /\ (thr => s[q].a >= 0 /\ CopyThrows(s[q].a))
    /\ IF thr THEN Step("copyctor", p, q, 0, 0, TRUE, s, {}, -1)
       ELSE Step("copyctor", p, q, 0, 0, FALSE, [s EXCEPT ![p] = s[q]], {}, 0)
MoveCtor(p, q) == ~Live(p) /\ Live(q) /\ Keep
    /\ Step("movector", p, q, 0, 0, FALSE, [s EXCEPT ![p] = s[q], ![q] = Moved(s[q])], {}, 0)
CopyAssign(p, q, thr) == Live(p) /\ Live(q) /\ Variantish /\ Keep
    /\ (thr => p # q /\ s[q].a >= 0 /\ CopyThrows(s[q].a))
    /\ IF thr THEN Step("copyassign", p, q, 0, 0, TRUE, [s EXCEPT ![p] = IF CommitFirst THEN s[q] ELSE E0],
                        IF CommitFirst THEN {p} ELSE {}, -1)
       ELSE Step("copyassign", p, q, 0, 0, FALSE, [s EXCEPT ![p] = s[q]], {}, 0)
MoveAssign(p, q) == Live(p) /\ Live(q) /\ Keep
    /\ Step("moveassign", p, q, 0, 0, FALSE, IF p = q THEN s ELSE [s EXCEPT ![p] = s[q], ![q] = Moved(s[q])], {}, 0)
Swap(p, q) == Live(p) /\ Live(q) /\ Variantish /\ Keep
    /\ Step("swap", p, q, 0, 0, FALSE, [s EXCEPT ![p] = s[q], ![q] = s[p]], {}, 0)
Reset(p) == Live(p) /\ Flavour # "uninit" /\ Keep /\ Step("reset", p, 0, 0, 0, FALSE, [s EXCEPT ![p] = E0], {}, 0)
\* moving the value out: refused when there is none
Take(p) == Live(p) /\ ~Variantish /\ Keep
    /\ IF s[p].a = 0 THEN Step("take", p, 0, 0, 0, FALSE, [s EXCEPT ![p] = Moved(s[p])], {}, s[p].v)
       ELSE Tryish /\ Step("take", p, 0, 0, 0, FALSE, s, {}, -1)
Destroy(p) == Live(p) /\ Keep /\ Step("destroy", p, 0, 0, 0, FALSE, [s EXCEPT ![p] = None], {}, 0)
Finish == Record /\ steps = L /\ steps' = L + 1 /\ UNCHANGED <<s, inst, bad, next, hist>>
Act == /\ (Record => steps < L)
       /\ \/ \E p \in P : Default(p) \/ Reset(p) \/ Take(p) \/ Destroy(p)
          \/ \E p \in P, a \in Alts, thr \in BOOLEAN : Value(p, a, thr) \/ Emplace(p, a, thr) \/ EmplaceT(p, a, thr) \/ AssignVal(p, a, thr)
          \/ \E p, q \in P : MoveCtor(p, q) \/ MoveAssign(p, q) \/ Swap(p, q)
          \/ \E p, q \in P, thr \in BOOLEAN : CopyCtor(p, q, thr) \/ CopyAssign(p, q, thr)
Next == Act \/ Finish
Spec == Init /\ [][Next]_vars
\* --- the guarantee
ExactStorage == ~bad /\ \A p \in P : inst[p] = Held(s[p])     \* an index is recorded iff its object is there
OneOwner == Flavour \notin {"trivial"} => \A p, q \in P :     \* a moved value is in one place
               p # q /\ s[p].a >= 0 /\ s[q].a >= 0 /\ s[p].v > 0 /\ s[p].v = s[q].v => Variantish
ValuesExist == \A p \in P : s[p].v < next
Emit == (Record /\ steps = L + 1) => PrintT("@@" \o ToJson(hist))
=============================================================================
