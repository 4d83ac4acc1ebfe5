------------------------------ MODULE SiteStore ------------------------------
(* The container of sites (mythical::Site_Container): a map from id to site. *)
(* A stored site is [rates, cl, occ, vis]: its rates to neighbours, its      *)
(* cluster (-1: none), how often it is occupied and how often it was visited.*)
EXTENDS Integers, FiniteSets, Sequences
VARIABLE store
None == 0 - 1
Known(i) == i \in DOMAIN store
Fresh(rates) == [rates |-> rates, cl |-> None, occ |-> 0, vis |-> 0]
With(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
(* adding: refused when the id is known *)
AddTo(st, i, s) == IF i \in DOMAIN st THEN st ELSE With(st, i, s)
Add(i, s) == store' = AddTo(store, i, s)
(* a list is added one by one up to the first id that is known already *)
RECURSIVE Prefix(_, _)
Prefix(st, list) == IF list = <<>> \/ list[1][1] \in DOMAIN st THEN st ELSE Prefix(With(st, list[1][1], list[1][2]), Tail(list))
RECURSIVE Complete(_, _)
Complete(st, list) == list = <<>> \/ (list[1][1] \notin DOMAIN st /\ Complete(With(st, list[1][1], list[1][2]), Tail(list)))
AddList(list) == store' = Prefix(store, list)
Put(i, s) == store' = IF Known(i) THEN [store EXCEPT ![i] = s] ELSE store
SetCluster(i, c) == store' = IF Known(i) THEN [store EXCEPT ![i].cl = c] ELSE store
Occupy(i) == store' = IF Known(i) THEN [store EXCEPT ![i].occ = @ + 1, ![i].vis = @ + 1] ELSE store
Vacate(i) == store' = IF Known(i) THEN [store EXCEPT ![i].occ = @ - 1] ELSE store
SetVisits(i, v) == store' = IF Known(i) THEN [store EXCEPT ![i].vis = v] ELSE store

RECURSIVE SumOf(_, _)
SumOf(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + SumOf(f, S \ {x})
Total(f) == SumOf(f, DOMAIN f)
Fastest(f) == IF DOMAIN f = {} THEN 0 ELSE CHOOSE m \in {f[x] : x \in DOMAIN f} : \A x \in DOMAIN f : f[x] <= m
ClustersOf(G) == {store[i].cl : i \in G} \ {None}
Smallest(G) == IF ClustersOf(G) = {} THEN None ELSE CHOOSE c \in ClustersOf(G) : \A d \in ClustersOf(G) : c <= d
(* ---- properties of the design ---- *)
Grows == [][DOMAIN store \subseteq DOMAIN store' /\ \A i \in DOMAIN store : store'[i].rates = store[i].rates]_store
OneAtATime == [][Cardinality({i \in DOMAIN store : store'[i] # store[i]}) <= 1]_store
SmallestIsMember == \A G \in SUBSET DOMAIN store : Smallest(G) # None => \E i \in G : store[i].cl = Smallest(G)
=============================================================================
