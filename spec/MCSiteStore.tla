----------------------------- MODULE MCSiteStore -----------------------------
EXTENDS SiteStore, TLC
CONSTANTS Ids, Neighs, Vals, Clusters, MaxOcc, MaxVis, Depth
VARIABLE hist
H(x) == hist' = Append(hist, x)
RateSets == {[n \in S |-> v] : S \in SUBSET Neighs, v \in Vals}
Flat(r) == <<Cardinality(DOMAIN r)>> \o (LET RECURSIVE F(_) F(S) == IF S = {} THEN <<>> ELSE LET n == CHOOSE n \in S : TRUE IN <<n, r[n]>> \o F(S \ {n}) IN F(DOMAIN r))
Init == store = [i \in {} |-> 0] /\ hist = <<>>
Step == \/ \E i \in Ids, r \in RateSets : Add(i, Fresh(r)) /\ H(<<"Add", i>> \o Flat(r))
        \/ \E i, j \in Ids, r \in RateSets : AddList(<<<<i, Fresh(r)>>, <<j, Fresh(r)>>>>) /\ H(<<"AddMany", 2, i>> \o Flat(r) \o <<j>> \o Flat(r))
        \/ \E i \in Ids, c \in Clusters : SetCluster(i, c) /\ H(<<"SetCl", i, c>>)
        \/ \E i \in Ids : (Known(i) => store[i].occ < MaxOcc /\ store[i].vis < MaxVis) /\ Occupy(i) /\ H(<<"Occ", i>>)
        \/ \E i \in Ids : (Known(i) => store[i].occ > 0 - 1) /\ Vacate(i) /\ H(<<"Vac", i>>)
        \/ \E i \in Ids, v \in 0..MaxVis : SetVisits(i, v) /\ H(<<"SetVis", i, v>>)
        \/ \E i \in Ids, n \in Neighs : UNCHANGED store /\ H(<<"Ask", i, n>>)
        \/ \E i, j \in Ids : UNCHANGED store /\ H(<<"Group", 2, i, j>>)
        \/ UNCHANGED store /\ H(<<"All">>)
Done == Len(hist) = Depth /\ PrintT(<<"BEH", hist>>) /\ H(<<"End">>) /\ UNCHANGED store
Next == (Len(hist) < Depth /\ Step) \/ Done
Spec == Init /\ [][Next]_<<store, hist>>
View == store
NonNegative == \A i \in DOMAIN store : store[i].vis >= 0
=============================================================================
