---------------------------- MODULE MCClusterStore ----------------------------
EXTENDS ClusterStore, TLC
CONSTANTS Ids, Sizes, Exits, Outs, Resolutions, MaxOcc, Depth
VARIABLE hist
H(x) == hist' = Append(hist, x)
OutSets == {900..(900 + k) : k \in 0..Outs}
Init == store = [i \in {} |-> 0] /\ hist = <<>>
Step == \/ \E i \in Ids, n \in Sizes, b \in Exits, o \in OutSets :
             Add(i, Fresh(10 * i + 10, n, b, o)) /\ H(<<"Add", i, 10 * i + 10, n, b, Cardinality(o)>>)
        \/ \E i \in Ids : Erase(i) /\ H(<<"Erase", i>>)
        \/ \E i \in Ids : (Known(i) => store[i].occ < MaxOcc) /\ Occupy(i) /\ H(<<"Occ", i>>)
        \/ \E i \in Ids : (Known(i) => store[i].occ > 0 - 1) /\ Vacate(i) /\ H(<<"Vac", i>>)
        \/ \E i \in Ids, r \in Resolutions : SetRes(i, r) /\ H(<<"SetRes", i, r>>)
        \/ \E i \in Ids : UNCHANGED store /\ H(<<"Ask", i>>)
Done == Len(hist) = Depth /\ PrintT(<<"BEH", hist>>) /\ H(<<"End">>) /\ UNCHANGED store
Next == (Len(hist) < Depth /\ Step) \/ Done
Spec == Init /\ [][Next]_<<store, hist>>
View == store
=============================================================================
