------------------------------ MODULE Exclusion ------------------------------
(* What the simulation must keep for any number of walkers and sites, any    *)
(* rates and any outcome of the random choices: at most one walker per site, *)
(* clusters disjoint and only growing, the smallest id kept.  CoarseGrain    *)
(* refines this module (checked by TLC); ExclusionProof proves the theorems.  *)
EXTENDS Integers, FiniteSets
CONSTANTS Site, Walker
VARIABLES pos,  \* walker -> site, for the walkers in the system
          cls   \* cluster id -> set of sites
vars == <<pos, cls>>
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Drop(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Touched(B) == {c \in DOMAIN cls : cls[c] \cap B # {}}
Joined(B) == B \cup UNION {cls[c] : c \in Touched(B)}
FreeFor(w, s) == \A v \in DOMAIN pos : v # w => pos[v] # s

Init == pos = [w \in {} |-> 0] /\ cls = [c \in {} |-> {}]
Place(w, s) == w \notin DOMAIN pos /\ (\A v \in DOMAIN pos : pos[v] # s) /\ pos' = Put(pos, w, s) /\ UNCHANGED cls
(* walker w tries to enter site p; B becomes a cluster, or joins those it    *)
(* touches, under the id k                                                   *)
Move(w, p) == w \in DOMAIN pos /\ pos' = Put(pos, w, IF FreeFor(w, p) THEN p ELSE pos[w])
Form(B, k) == /\ k \notin DOMAIN cls /\ Touched(B) = {}
              /\ cls' = Put(cls, k, B)
Merge(B, k) == /\ k \in Touched(B) /\ \A c \in Touched(B) : k <= c
               /\ cls' = [c \in (DOMAIN cls \ Touched(B)) \cup {k} |-> IF c = k THEN Joined(B) ELSE cls[c]]
Coarsen(B, k) == Form(B, k) \/ Merge(B, k)
Hop(w, p) == Move(w, p) /\ (UNCHANGED cls \/ \E B \in SUBSET Site, k \in Nat : B # {} /\ Coarsen(B, k))
Remove(w) == w \in DOMAIN pos /\ pos' = Drop(pos, w) /\ UNCHANGED cls
Next == \/ \E w \in Walker, s \in Site : Place(w, s) \/ Hop(w, s)
        \/ \E w \in Walker : Remove(w)
Spec == Init /\ [][Next]_vars

TypeOK == /\ DOMAIN pos \subseteq Walker /\ pos \in [DOMAIN pos -> Site]
          /\ DOMAIN cls \subseteq Nat /\ cls \in [DOMAIN cls -> SUBSET Site]
OnePerSite == \A v, w \in DOMAIN pos : pos[v] = pos[w] => v = w
Disjoint == \A c, d \in DOMAIN cls : c # d => cls[c] \cap cls[d] = {}
Inv == TypeOK /\ OnePerSite /\ Disjoint
OnlyGrow == \A c \in DOMAIN cls : \E d \in DOMAIN cls' : d <= c /\ cls[c] \subseteq cls'[d]
=============================================================================
