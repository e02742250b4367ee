---------------------------- MODULE PerfectHash ----------------------------
(* Two-level perfect hash map (container::CHashMap / CPmhTable / CPmhBucket) *)
(* The builder tries hash functions until one works at each level; the model *)
(* lets it pick ANY function at every try, so the guarantee cannot depend on *)
(* the quality of the hash.  Keys are 1..N, the probe 0 is not in the map.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS N,         \* keys in the map
          M,         \* buckets and second-level slots (>= N)
          BucketMax, \* capacity of a bucket
          Checked    \* every lookup style checks the index before it uses it
ASSUME N \in 1..4 /\ M >= N /\ BucketMax \in Nat /\ Checked \in BOOLEAN
Keys == 1..N
AnyKey == 0..N
Slot == 0..(M - 1)
Illegal == -1
VARIABLES pc, root, order, todo, g, h, fns
vars == <<pc, root, order, todo, g, h, fns>>
\* g[b]: <<"index", i>> or <<"seed", f>>; a bucket without keys keeps index 1
Init == /\ pc = "root" /\ root = [k \in AnyKey |-> 0] /\ order = <<>> /\ todo = {}
        /\ g = [b \in Slot |-> [seed |-> FALSE, i |-> 1, f |-> <<>>]] /\ h = [b \in Slot |-> Illegal] /\ fns = 0
Bucket(f, b) == {k \in Keys : f[k] = b}
\* level 1: a function whose buckets all fit
PickRoot == /\ pc = "root"
            /\ \E f \in [AnyKey -> Slot] :
                 /\ \A b \in Slot : Cardinality(Bucket(f, b)) <= BucketMax
                 /\ root' = f /\ todo' = {b \in Slot : Bucket(f, b) # {}} /\ pc' = "place"
            /\ UNCHANGED <<order, g, h, fns>>
\* level 2: largest buckets first
Largest == CHOOSE b \in todo : \A c \in todo : Cardinality(Bucket(root, b)) >= Cardinality(Bucket(root, c))
Place == /\ pc = "place" /\ todo # {}
         /\ LET b == Largest  ks == Bucket(root, b) IN
            /\ todo' = todo \ {b}
            /\ IF Cardinality(ks) = 1
               THEN g' = [g EXCEPT ![b] = [seed |-> FALSE, i |-> CHOOSE k \in ks : TRUE, f |-> <<>>]] /\ h' = h
               ELSE \E f \in [AnyKey -> Slot] :
                      /\ \A k \in ks : h[f[k]] = Illegal
                      /\ \A k, l \in ks : k # l => f[k] # f[l]
                      /\ g' = [g EXCEPT ![b] = [seed |-> TRUE, i |-> 0, f |-> f]]
                      /\ h' = [s \in Slot |-> IF \E k \in ks : f[k] = s THEN CHOOSE k \in ks : f[k] = s ELSE h[s]]
         /\ UNCHANGED <<pc, root, order, fns>>
Done == pc = "place" /\ todo = {} /\ pc' = "ready" /\ UNCHANGED <<root, order, todo, g, h, fns>>
Next == PickRoot \/ Place \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
\* --- lookups in the finished table
Index(k) == LET e == g[root[k]] IN IF e.seed THEN h[e.f[k]] ELSE e.i
Find(k) == LET i == Index(k) IN IF i \in Keys THEN (IF i = k THEN i ELSE 0) ELSE 0
At(k) == LET i == Index(k) IN IF i \in Keys THEN (IF i = k THEN i ELSE 0) ELSE IF Checked THEN 0 ELSE -7
Answers == pc = "ready" => /\ \A k \in Keys : Find(k) = k /\ At(k) = k
                           /\ Find(0) = 0
InBounds == pc = "ready" => At(0) = 0
Builds == <>(pc = "ready")
\* the builder can always go on: there is a function for every remaining bucket
NeverStuck == pc = "place" /\ todo # {} => ENABLED Place
=============================================================================
