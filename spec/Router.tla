------------------------------- MODULE Router -------------------------------
(* Route registration and lookup.  Patterns are sequences of literal         *)
(* segments, "{}" (a parameter) and a trailing "**" (one or more remaining   *)
(* segments).  The implementation keeps a tree and backtracks (Find); what a  *)
(* user relies on is the most specific matching pattern (Best).  Parameters,  *)
(* wildcard text and query parameters are those of the request at hand.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt
CONSTANTS Mode,       \* "all": every table of <= NRoutes routes, all lookups; "gen": random behaviours
          NRoutes, NAsks, Depth, PLen
Lits == {"a", "b"}
Segs == {"a", "b", "c", "**", "*", "{}"}
SeqsUpTo(S, n) == UNION {[1..k -> S] : k \in 0..n}
Patterns == {p \o w : p \in SeqsUpTo(Lits \cup {"{}"}, Depth), w \in {<<>>, <<"**">>}}
Paths == SeqsUpTo(IF Mode = "all" THEN {"a", "c", "**"} ELSE Segs, PLen)
Methods == IF Mode = "all" THEN {"GET"} ELSE {"GET", "POST"}
IsWild(p) == Len(p) > 0 /\ p[Len(p)] = "**"
Pre(p) == IF IsWild(p) THEN SubSeq(p, 1, Len(p) - 1) ELSE p
HasParam(p) == \E i \in 1..Len(p) : p[i] = "{}"
VARIABLES tab,   \* registered routes in registration order: [m, p, id]
          asks, n
vars == <<tab, asks, n>>
---------------------------------------------------------------------------
\* what a user relies on
SegOk(s, x) == s = "{}" \/ s = x
Matches(p, path) == LET q == Pre(p) IN
    /\ IF IsWild(p) THEN Len(path) > Len(q) ELSE Len(path) = Len(q)
    /\ \A i \in 1..Len(q) : SegOk(q[i], path[i])
Rank(s) == CASE s = "{}" -> 1 [] s = "**" -> 2 [] OTHER -> 0
More(p, q) == \* p is more specific than q
    \E i \in 1..Len(p) : i <= Len(q) /\ Rank(p[i]) < Rank(q[i]) /\ \A j \in 1..(i - 1) : Rank(p[j]) = Rank(q[j])
IdOf(m, p) == LET S == {i \in 1..Len(tab) : tab[i].m = m /\ tab[i].p = p} IN tab[CHOOSE i \in S : \A j \in S : j <= i].id
Cands(m, path) == {tab[i].p : i \in {j \in 1..Len(tab) : tab[j].m = m /\ Matches(tab[j].p, path)}}
Best(m, path) == LET S == Cands(m, path) IN IF S = {} THEN <<>> ELSE <<CHOOSE p \in S : \A q \in S \ {p} : More(p, q)>>
---------------------------------------------------------------------------
\* the mechanism: a tree of segments searched depth first, literal then parameter then wildcard
Tree(m) == {tab[i].p : i \in {j \in 1..Len(tab) : tab[j].m = m}}
RECURSIVE Find(_, _, _)
Find(t, pre, rest) ==
    IF rest = <<>> THEN (IF pre \in t THEN <<pre>> ELSE <<>>)
    ELSE LET lit == IF Head(rest) \in {"**", "*", "{}"} THEN <<>> ELSE Find(t, Append(pre, Head(rest)), Tail(rest))
             par == Find(t, Append(pre, "{}"), Tail(rest))
             w == Append(pre, "**")
         IN IF lit # <<>> THEN lit ELSE IF par # <<>> THEN par ELSE IF w \in t THEN <<w>> ELSE <<>>
Agree == (Mode = "all") => \A m \in Methods : LET t == Tree(m) IN \A path \in Paths :
            LET b == Best(m, path) IN Find(t, <<>>, path) = b
\* the result is that of a set of patterns: order of registration plays no part
NoOrder == \A m \in Methods, path \in (IF Mode = "all" THEN Paths ELSE {}) : Cardinality({p \in Cands(m, path) : \A q \in Cands(m, path) \ {p} : More(p, q)}) <= 1
---------------------------------------------------------------------------
RECURSIVE Cat(_)
Cat(q) == IF q = <<>> THEN "" ELSE Head(q) \o Cat(Tail(q))
Text(p, lead) == LET s == [i \in 1..Len(p) |-> (IF i = 1 /\ ~lead THEN "" ELSE "/") \o (IF p[i] = "{}" THEN "{p" \o ToString(i) \o "}" ELSE p[i])]
                 IN IF p = <<>> THEN "/" ELSE Cat(s)
\* a rendered request path: separators before each segment, and what follows the last one
Raw(path, seps, trail) == Cat([i \in 1..Len(path) |-> seps[i] \o path[i]]) \o (IF path = <<>> THEN "/" ELSE trail)
Params(p, path) == [k \in 1..Cardinality({i \in 1..Len(p) : p[i] = "{}"}) |->
                     path[CHOOSE i \in 1..Len(p) : p[i] = "{}" /\ Cardinality({j \in 1..i : p[j] = "{}"}) = k]]
Wild(p, path, seps, trail) == LET k == Len(Pre(p))
                                  tail == Cat([i \in 1..(Len(path) - k - 1) |-> seps[k + 1 + i] \o path[k + 1 + i]]) \o trail
                              IN (IF HasParam(p) THEN "" ELSE seps[k + 1]) \o path[k + 1] \o tail
Queries == {<<>>, <<<<"k", "=", "v">>>>, <<<<"k", "=", "">>, <<"j", "=", "a=b">>>>, <<<<"flag", "", "">>>>, <<<<"p", "=", "/a/b?c">>, <<"x", "", "">>, <<"y", "=", "%20+">>>>,
            <<<<"a", "=", "1">>, <<"b", "=", "2">>, <<"c", "=", "/">>>>}
QText(q, amp) == IF q = <<>> THEN "" ELSE "?" \o Cat([i \in 1..Len(q) |-> (IF i > 1 THEN amp ELSE "") \o q[i][1] \o q[i][2] \o q[i][3]])
Init == tab = <<>> /\ asks = <<>> /\ n = 0
Add == /\ n < NRoutes
       /\ \E m \in Methods, p \in (IF Mode = "all" THEN Patterns ELSE {RandomElement(Patterns), RandomElement(Patterns)}) :
            tab' = Append(tab, [m |-> m, p |-> p, id |-> "r" \o ToString(n + 1)])
       /\ n' = n + 1 /\ UNCHANGED asks
\* a path near a registered pattern, or any path
Inst(p) == [i \in 1..Len(Pre(p)) |-> IF p[i] = "{}" THEN RandomElement(Segs) ELSE p[i]]
           \o (IF IsWild(p) THEN RandomElement({s \in SeqsUpTo(Segs, 2) : Len(s) > 0}) ELSE <<>>)
Near(path) == LET r == RandomElement(1..6) IN
    CASE r = 1 -> path \o <<RandomElement(Segs)>>
      [] r = 2 -> SubSeq(path, 1, IF path = <<>> THEN 0 ELSE Len(path) - 1)
      [] r = 3 -> [i \in 1..Len(path) |-> IF i = Len(path) THEN RandomElement(Segs) ELSE path[i]]
      [] OTHER -> path
Ask == /\ Mode = "gen" /\ n >= NRoutes /\ n < NRoutes + NAsks
       /\ \E c \in 1..3 : \E m \in {RandomElement(Methods)} :
          \E base \in {IF c = 3 THEN [i \in 1..RandomElement(0..PLen) |-> RandomElement(Segs)] ELSE Inst(tab[RandomElement(1..Len(tab))].p)} :
          \E path \in {IF c = 3 THEN base ELSE Near(base)} :
          \E seps \in {[i \in 1..Len(path) |-> RandomElement({1, 2, 3, 4})]} :
          \E trail \in {RandomElement({"", "/"})} : \E q \in {RandomElement(Queries)} : \E k \in {RandomElement(1..3)} :
          LET
            sp == [i \in 1..Len(path) |-> IF seps[i] = 4 THEN "//" ELSE "/"]
            amp == IF k = 3 THEN "&&" ELSE "&"
            b == Best(m, path)
            raw == Raw(path, sp, trail)
            qs == QText(q, amp)
            e == [m |-> m, pure |-> raw, raw |-> raw \o qs,
                  q |-> [i \in 1..Len(q) |-> <<q[i][1], q[i][3]>>],
                  id |-> IF b = <<>> THEN "" ELSE IdOf(m, b[1]),
                  pp |-> IF b = <<>> THEN <<>> ELSE Params(b[1], path),
                  w |-> IF b = <<>> \/ ~IsWild(b[1]) THEN <<>> ELSE <<Wild(b[1], path, sp, trail)>>]
          IN asks' = Append(asks, e)
       /\ n' = n + 1 /\ UNCHANGED tab
Finish == Mode = "gen" /\ n = NRoutes + NAsks /\ n' = n + 1 /\ UNCHANGED <<tab, asks>>
Next == Add \/ Ask \/ Finish
Spec == Init /\ [][Next]_vars
Routes == [i \in 1..Len(tab) |-> [m |-> tab[i].m, p |-> Text(tab[i].p, (i % 3) # 0 \/ tab[i].p = <<"**">>), id |-> tab[i].id]]
Emit == (Mode = "gen" /\ n = NRoutes + NAsks + 1) => PrintT("@@" \o ToJson([routes |-> Routes, asks |-> asks]))
\* exhaustive tables with the outcome of every path
EmitAll == (Mode = "all" /\ n = NRoutes) => PrintT("@@" \o ToJson([routes |-> Routes,
             asks |-> [i \in 1..Cardinality(Paths) |-> LET path == SetToSeq(Paths)[i]  b == Best("GET", path) IN
                        <<Raw(path, [k \in 1..Len(path) |-> "/"], ""), IF b = <<>> THEN "" ELSE IdOf("GET", b[1])>>]]))
=============================================================================
