------------------------------- MODULE Lattice -------------------------------
(* The cuboid lattice (mythical::charge_transport::Cuboid).  A lattice is    *)
(* <<n1, n2, n3>> sites in the three directions, each periodic or fixed.     *)
(* Squared distances are in units of the squared lattice spacing; a cutoff   *)
(* is given by h, twice its square.                                          *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLE lat            \* [n |-> <<..>>, per |-> <<..>>]
Total(L) == L.n[1] * L.n[2] * L.n[3]
Sites(L) == 0..(Total(L) - 1)
Wrap(L, d, x) == x % L.n[d]                      \* TLA+ modulo: never negative
InRange(L, d, x) == x >= 0 /\ x < L.n[d]
CoordOK(L, p) == \A d \in 1..3 : L.per[d] = 1 \/ InRange(L, d, p[d])
Fold(L, p) == [d \in 1..3 |-> IF L.per[d] = 1 THEN Wrap(L, d, p[d]) ELSE p[d]]
IndexOf(L, p) == LET q == Fold(L, p) IN q[1] + L.n[1] * (q[2] + L.n[2] * q[3])
PosOf(L, i) == <<i % L.n[1], (i \div L.n[1]) % L.n[2], i \div (L.n[1] * L.n[2])>>
AbsI(x) == IF x < 0 THEN -x ELSE x
(* distance along one direction, the shortest way around if periodic *)
Along(L, d, a, b) == LET x == AbsI(a - b) IN IF L.per[d] = 1 /\ L.n[d] - x < x THEN L.n[d] - x ELSE x
Dist2(L, i, j) == LET p == PosOf(L, i) q == PosOf(L, j)
                      x == Along(L, 1, p[1], q[1]) y == Along(L, 2, p[2], q[2]) z == Along(L, 3, p[3], q[3])
                  IN x * x + y * y + z * z
Neighbours(L, i, h) == {j \in Sites(L) : j # i /\ 2 * Dist2(L, i, j) <= h}
(* direction d of the plane: the coordinate that is fixed *)
PlaneSites(L, d, k) == {i \in Sites(L) : PosOf(L, i)[d] = k}

(* ---- properties of the design, for the chosen lattice ---- *)
Box(L) == {<<x, y, z>> : x \in 0..(L.n[1]-1), y \in 0..(L.n[2]-1), z \in 0..(L.n[3]-1)}
Bijective == /\ \A i \in Sites(lat) : PosOf(lat, i) \in Box(lat) /\ IndexOf(lat, PosOf(lat, i)) = i
             /\ \A p \in Box(lat) : IndexOf(lat, p) \in Sites(lat) /\ PosOf(lat, IndexOf(lat, p)) = p
(* the minimum over the images in the neighbouring cells *)
ImageMin(L, d, a, b) == LET S == IF L.per[d] = 1 THEN {AbsI(a - b + k * L.n[d]) : k \in -2..2} ELSE {AbsI(a - b)}
                        IN CHOOSE m \in S : \A x \in S : m <= x
MinimumImage == \A i, j \in Sites(lat) : \A d \in 1..3 :
                   Along(lat, d, PosOf(lat, i)[d], PosOf(lat, j)[d]) = ImageMin(lat, d, PosOf(lat, i)[d], PosOf(lat, j)[d])
Metric == \A i, j \in Sites(lat) : Dist2(lat, i, j) = Dist2(lat, j, i) /\ (Dist2(lat, i, j) = 0 <=> i = j)
Shift(L, i, d) == LET p == PosOf(L, i) IN IndexOf(L, [p EXCEPT ![d] = @ + 1])
Translation == \A d \in 1..3 : lat.per[d] = 1 => \A i, j \in Sites(lat) :
                  Dist2(lat, Shift(lat, i, d), Shift(lat, j, d)) = Dist2(lat, i, j)
Mutual == \A i, j \in Sites(lat) : \A h \in {1, 2, 3, 4, 5, 8, 9} : j \in Neighbours(lat, i, h) <=> i \in Neighbours(lat, j, h)
=============================================================================
