----------------------------- MODULE SharedPtr -----------------------------
(* Shared coroutine pointers (container::CoSharedPtr) over a set of pointer  *)
(* slots.  A slot is absent (no pointer object), or a pointer that is null   *)
(* or refers to an object.  The counting discipline of the implementation    *)
(* is explicit (cnt, freed when it reaches 0); the user-level guarantee is   *)
(* stated as invariants over who refers to what.                             *)
EXTENDS Integers, FiniteSets, Sequences, TLC, Json
CONSTANTS NP, NO, L, Record
ASSUME NP \in Nat /\ NO \in Nat
P == 1..NP
O == 1..NO
Absent == -1
VARIABLES ref,    \* slot -> Absent | 0 (null) | object
          cnt,    \* object -> reference count kept by the implementation
          freed,  \* object -> how often it was destroyed
          next,   \* next object to create
          steps, hist
vars == <<ref, cnt, freed, next, steps, hist>>
Init == /\ ref = [p \in P |-> Absent] /\ cnt = [o \in O |-> 0] /\ freed = [o \in O |-> 0]
        /\ next = 1 /\ steps = 0 /\ hist = <<>>
\* drop one reference of object o (0: nothing)
Dec(c, o) == IF o > 0 THEN [c EXCEPT ![o] = @ - 1] ELSE c
Inc(c, o) == IF o > 0 THEN [c EXCEPT ![o] = @ + 1] ELSE c
Free(c0, c1) == [o \in O |-> IF c0[o] > 0 /\ c1[o] = 0 THEN freed[o] + 1 ELSE freed[o]]
Obs(r, c, f) == [ref |-> r, use |-> [p \in P |-> IF r[p] > 0 THEN c[r[p]] ELSE 0], dead |-> f]
Step(name, p, q, r1, c1) ==
    /\ ref' = r1 /\ cnt' = c1 /\ freed' = Free(cnt, c1) /\ steps' = IF Record THEN steps + 1 ELSE 0
    /\ hist' = IF Record THEN Append(hist, [op |-> name, p |-> p, q |-> q, exp |-> Obs(r1, c1, freed')]) ELSE <<>>
Live(p) == ref[p] # Absent
\* --- constructors into an absent slot
New(name, p) == ~Live(p) /\ next <= NO /\ next' = next + 1
                /\ Step(name, p, next, [ref EXCEPT ![p] = next], [cnt EXCEPT ![next] = 1])
Null(name, p) == ~Live(p) /\ UNCHANGED next /\ Step(name, p, 0, [ref EXCEPT ![p] = 0], cnt)
CopyCtor(p, q) == ~Live(p) /\ Live(q) /\ UNCHANGED next
                  /\ Step("copyctor", p, q, [ref EXCEPT ![p] = ref[q]], Inc(cnt, ref[q]))
MoveCtor(p, q) == ~Live(p) /\ Live(q) /\ UNCHANGED next
                  /\ Step("movector", p, q, [ref EXCEPT ![p] = ref[q], ![q] = 0], cnt)
\* --- operations on live slots (p = q allowed)
CopyAssign(p, q) == Live(p) /\ Live(q) /\ UNCHANGED next
                    /\ Step("copyassign", p, q, [ref EXCEPT ![p] = ref[q]], Dec(Inc(cnt, ref[q]), ref[p]))
MoveAssign(p, q) == Live(p) /\ Live(q) /\ UNCHANGED next
                    /\ IF p = q THEN Step("moveassign", p, q, ref, cnt)
                       ELSE Step("moveassign", p, q, [ref EXCEPT ![p] = ref[q], ![q] = 0], Dec(cnt, ref[p]))
Swap(p, q) == Live(p) /\ Live(q) /\ UNCHANGED next
              /\ Step("swap", p, q, [ref EXCEPT ![p] = ref[q], ![q] = ref[p]], cnt)
AssignNull(p) == Live(p) /\ UNCHANGED next /\ Step("assignnull", p, 0, [ref EXCEPT ![p] = 0], Dec(cnt, ref[p]))
Reset(p) == Live(p) /\ next <= NO /\ next' = next + 1
            /\ Step("reset", p, next, [ref EXCEPT ![p] = next], [Dec(cnt, ref[p]) EXCEPT ![next] = 1])
Destroy(p) == Live(p) /\ UNCHANGED next /\ Step("destroy", p, 0, [ref EXCEPT ![p] = Absent], Dec(cnt, ref[p]))
Finish == Record /\ steps = L /\ steps' = L + 1 /\ UNCHANGED <<ref, cnt, freed, next, hist>>
Act ==  /\ (Record => steps < L)
        /\ \/ \E p \in P : New("make", p) \/ New("ctor", p) \/ Null("default", p) \/ Null("nullptr", p)
                           \/ AssignNull(p) \/ Reset(p) \/ Destroy(p)
           \/ \E p, q \in P : CopyCtor(p, q) \/ MoveCtor(p, q) \/ CopyAssign(p, q) \/ MoveAssign(p, q) \/ Swap(p, q)
Next == Act \/ Finish
Spec == Init /\ [][Next]_vars
\* --- the guarantee
Refs(o) == {p \in P : ref[p] = o}
CountExact == \A o \in O : cnt[o] = Cardinality(Refs(o))
AliveIffReferred == \A o \in O : o < next => (freed[o] = IF Refs(o) = {} THEN 1 ELSE 0)
NeverBeforeCreation == \A o \in O : o >= next => freed[o] = 0 /\ Refs(o) = {}
\* behaviour generation
Emit == (Record /\ steps = L + 1) => PrintT("@@" \o ToJson(hist))
StateView == <<ref, cnt, freed, next, steps>>
=============================================================================
