----------------------------- MODULE MCSiteModel -----------------------------
EXTENDS SiteModel, TLC
CONSTANTS Sites, Neighs, Cells, Vals, MaxOcc, MaxVis, Depth
VARIABLE hist
H(x) == hist' = Append(hist, x)
Empty == [x \in {} |-> 0]
Init == /\ nb = [s \in Sites |-> Empty] /\ basis = nb /\ cell = Empty
        /\ occ = [s \in Sites |-> 0] /\ visits = occ /\ hist = <<>>
Step == \/ \E s \in Sites, n \in Neighs, c \in Cells, v \in Vals : n \notin DOMAIN nb[s] /\ Attach(s, n, c, v) /\ H(<<"AddNeigh", s, n, c, v>>)
        \/ \E s \in Sites, n \in Neighs, c \in Cells, v \in Vals : Attach(s, n, c, v) /\ H(<<"ResetNeigh", s, n, c, v>>)
        \/ \E c \in DOMAIN cell, v \in Vals : Mutate(c, v) /\ H(<<"Mutate", c, v>>)
        \/ \E s \in Sites : occ[s] < MaxOcc /\ visits[s] < MaxVis /\ Occupy(s) /\ H(<<"Occupy", s, 0>>)
        \/ \E s \in Sites : occ[s] > 0 - MaxOcc /\ Vacate(s) /\ H(<<"Vacate", s, 1>>)
        \/ \E s \in Sites : occ[s] > 0 - MaxOcc /\ Vacate(s) /\ H(<<"Remove", s, 5>>)
        \/ \E s \in Sites, v \in {0, 1} : SetStatus(s, v) /\ H(<<"SetStatus", s, v>>)
        \/ \E s \in Sites, v \in 0..MaxVis : SetVisits(s, v) /\ H(<<"SetVisits", s, v, 0>>)
Done == Len(hist) = Depth /\ PrintT(<<"BEH", hist>>) /\ H(<<"End">>) /\ UNCHANGED svars
Next == (Len(hist) < Depth /\ Step) \/ Done
Spec == Init /\ [][Next]_<<svars, hist>>
View == svars
NonNegative == \A s \in Sites : visits[s] >= 0
=============================================================================
