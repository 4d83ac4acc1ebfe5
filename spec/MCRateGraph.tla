----------------------------- MODULE MCRateGraph -----------------------------
EXTENDS RateGraph, TLC
CONSTANTS Ids, Depth
VARIABLE hist
H(x) == hist' = Append(hist, x)
Init == edges = {} /\ hist = <<>>
Step == \/ \E i, j \in Ids : (Add(i, j, Cardinality(edges) + 1) \/ (Known(i, j) /\ UNCHANGED edges)) /\ H(<<"Add", i, j, Cardinality(edges) + 1>>)
        \/ \E i, j \in Ids : UNCHANGED edges /\ H(<<"Get", i, j>>)
        \/ \E i \in Ids : UNCHANGED edges /\ H(<<"Counts", i>>)
        \/ \E i \in Ids : UNCHANGED edges /\ H(<<"Lists", i>>)
        \/ UNCHANGED edges /\ H(<<"Ends">>)
Done == Len(hist) = Depth /\ PrintT(<<"BEH", hist>>) /\ H(<<"End">>) /\ UNCHANGED edges
Next == (Len(hist) < Depth /\ Step) \/ Done
Spec == Init /\ [][Next]_<<edges, hist>>
View == {Pair(x) : x \in edges}
=============================================================================
