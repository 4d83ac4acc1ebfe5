------------------------------ MODULE MCLattice ------------------------------
(* Every lattice up to Max sites per direction, every boundary combination;  *)
(* in simulation mode it prints query sequences.                             *)
EXTENDS Lattice, TLC
CONSTANTS Max, Depth
VARIABLE hist
H(x) == hist' = Append(hist, x)
Init == /\ \E a, b, c \in 1..Max, x, y, z \in {0, 1} : lat = [n |-> <<a, b, c>>, per |-> <<x, y, z>>]
        /\ hist = <<>>
Coord == {-2 * Max - 1, -Max, -1, 0, 1, 2, Max - 1, Max, 2 * Max + 1}
Idx == {-1, 0, 1, Total(lat) \div 3, Total(lat) \div 2, Total(lat) - 2, Total(lat) - 1, Total(lat)}
Index == \E a, b, c \in Coord : H(<<"Index", a, b, c>>)
Pos == \E i \in Idx : H(<<"Pos", i>>)
Dist == \E i, j \in Idx : H(<<"Dist", i, j>>)
Neigh == \E i \in Idx, h \in {1, 2, 3, 5, 7, 8, 9, 13, 18, 32, 99} : H(<<"Neigh", i, h>>)
NeighPos == \E a, b, c \in {-1, 0, 1, Max - 1, Max}, h \in {1, 2, 5, 8, 19} : H(<<"NeighPos", a, b, c, h>>)
NeighAll == \E h \in {1, 2, 3, 5, 8, 13, 99} : H(<<"NeighAll", h>>)
Step == UNCHANGED lat /\ (Index \/ Pos \/ Dist \/ Neigh \/ NeighPos \/ NeighAll)
(* in simulation mode: print the behaviour once *)
Done == Depth > 0 /\ Len(hist) = Depth /\ PrintT(<<"BEH", <<<<"New", lat.n[1], lat.n[2], lat.n[3], 0, lat.per[1], lat.per[2], lat.per[3], 7>>>> \o hist>>) /\ hist' = Append(hist, <<"End">>) /\ UNCHANGED lat
Next == (Len(hist) < Depth /\ Step) \/ Done
Spec == Init /\ [][Next]_<<lat, hist>>
=============================================================================
