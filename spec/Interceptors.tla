---------------------------- MODULE Interceptors ----------------------------
(* Interceptors around endpoints.  A route has a list of interceptors, each   *)
(* of a kind (0 sync, 1 async, 2 before only, 3 after only, 4 enum results,    *)
(* 5 mixed) with a before and an after outcome.  One request runs the steps    *)
(* of its own route: before-steps in order until one refuses, the endpoint if  *)
(* none refused, then after-steps in order until one refuses.                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt
CONSTANTS Mode,   \* "all": one route, every program; "gen": three routes, random programs and requests
          NReq
Sigs == {<<>>, <<0>>, <<1>>, <<2>>, <<3>>, <<4>>, <<5>>, <<0, 0>>, <<0, 1>>, <<1, 0>>, <<2, 3>>, <<3, 2>>, <<4, 5>>, <<0, 0, 0>>, <<0, 1, 2>>, <<1, 4, 3>>, <<5, 0, 1>>}
NfSigs == {<<>>, <<0>>, <<0, 1>>}
HasB(k) == k # 3
HasA(k) == k # 2
\* interceptor i of a program: outcomes are fixed to TRUE where the step does not exist
Outs(k) == {<<b, a>> \in BOOLEAN \X BOOLEAN : (HasB(k) \/ b) /\ (HasA(k) \/ a)}
Progs(sigs) == UNION {{[i \in 1..Len(s) |-> [k |-> s[i], b |-> f[i][1], a |-> f[i][2]]] :
                 f \in {g \in [1..Len(s) -> BOOLEAN \X BOOLEAN] : \A i \in 1..Len(s) : g[i] \in Outs(s[i])}} : s \in sigs}
RouteNames == IF Mode = "all" THEN {"r1"} ELSE {"r1", "r2", "nf"}
VARIABLES prog,      \* route -> program
          cur,       \* route being served, or "" between requests
          pc,        \* next step: <<"b", i>>, <<"e", 0>>, <<"a", i>>
          log,       \* steps of the current request
          hist, n
vars == <<prog, cur, pc, log, hist, n>>
Init == /\ IF Mode = "all" THEN prog \in [RouteNames -> Progs(Sigs)]
           ELSE prog = [r \in RouteNames |-> RandomElement(Progs(IF r = "nf" THEN NfSigs ELSE Sigs))]
        /\ cur = "" /\ pc = <<"b", 1>> /\ log = <<>> /\ hist = <<>> /\ n = 0
P == prog[cur]
Request(r) == cur = "" /\ n < NReq /\ cur' = r /\ pc' = <<"b", 1>> /\ log' = <<>> /\ n' = n + 1 /\ UNCHANGED <<prog, hist>>
Before == /\ cur # "" /\ pc[1] = "b" /\ pc[2] <= Len(P)
          /\ LET x == P[pc[2]] IN
             /\ log' = (IF HasB(x.k) THEN Append(log, <<"b", pc[2]>>) ELSE log)
             /\ pc' = (IF x.b THEN <<"b", pc[2] + 1>> ELSE <<"a", 1>>)
          /\ UNCHANGED <<prog, cur, hist, n>>
Endpoint == /\ cur # "" /\ pc[1] = "b" /\ pc[2] > Len(P) /\ log' = Append(log, <<"e", 0>>) /\ pc' = <<"a", 1>>
            /\ UNCHANGED <<prog, cur, hist, n>>
After == /\ cur # "" /\ pc[1] = "a" /\ pc[2] <= Len(P)
         /\ LET x == P[pc[2]] IN
            /\ log' = (IF HasA(x.k) THEN Append(log, <<"a", pc[2]>>) ELSE log)
            /\ pc' = (IF x.a THEN <<"a", pc[2] + 1>> ELSE <<"a", Len(P) + 1>>)
         /\ UNCHANGED <<prog, cur, hist, n>>
Done == /\ cur # "" /\ pc[1] = "a" /\ pc[2] > Len(P) /\ hist' = Append(hist, <<cur, log>>) /\ cur' = "" /\ log' = <<>> /\ pc' = <<"b", 1>>
        /\ UNCHANGED <<prog, n>>
Next == (\E r \in RouteNames : Request(r)) \/ Before \/ Endpoint \/ After \/ Done
Spec == Init /\ [][Next]_vars
---------------------------------------------------------------------------
Idx(l, t) == {i \in 1..Len(l) : l[i][1] = t}
FirstNo == LET S == {i \in 1..Len(P) : ~P[i].b} IN IF S = {} THEN Len(P) + 1 ELSE CHOOSE i \in S : \A j \in S : i <= j
\* before-steps in order, stopping at the first refusal; endpoint exactly when none refused, once, after them; after-steps in order, last
Ordered == \A i, j \in 1..Len(log) : i < j =>
             /\ (log[i][1] = log[j][1] => log[i][1] # "e" /\ log[i][2] < log[j][2])
             /\ ~(log[i][1] = "a" /\ log[j][1] # "a") /\ ~(log[i][1] = "e" /\ log[j][1] = "b")
Complete == (cur # "" /\ pc[1] = "a" /\ pc[2] > Len(P)) =>
              /\ {log[i][2] : i \in Idx(log, "b")} = {i \in 1..Len(P) : HasB(P[i].k) /\ i <= FirstNo}
              /\ (Idx(log, "e") # {}) = (FirstNo > Len(P))
              /\ \A i \in 1..Len(P) : (HasA(P[i].k) /\ \A j \in 1..(i - 1) : P[j].a) => <<"a", i>> \in {log[k] : k \in 1..Len(log)}
Emit == (cur = "" /\ n = NReq /\ Len(hist) = NReq) => PrintT("@@" \o ToJson([prog |-> prog, hist |-> hist]))
=============================================================================
