--------------------------- MODULE MCTimeOfFlight ---------------------------
EXTENDS TimeOfFlight
CONSTANTS Charges, Dwells, Horizon
Lats == {[n |-> <<3, 2, 1>>, per |-> <<0, 1, 0>>], [n |-> <<3, 1, 2>>, per |-> <<0, 0, 0>>], [n |-> <<4, 1, 1>>, per |-> <<0, 1, 1>>]}
Worlds(L) == {[h |-> h, F |-> F, J |-> 1, C |-> 1, Z |-> 12, lev |-> [k \in 1..Total(L) |-> v[(k % 3) + 1]]] :
                h \in {2, 4}, F \in {0, 1}, v \in {<<0, 0, 0>>, <<0, 1, 0>>}}
Empty == [x \in {} |-> 0]
Init == /\ lat \in Lats /\ world \in Worlds(lat)
        /\ at = Empty /\ next = Empty /\ due = Empty /\ clock = 0 /\ gone = {} /\ groups = {}
Plane0 == PlaneSites(lat, 1, 0)
Count == IF Cardinality(Charges) < Cardinality(Plane0) THEN Cardinality(Charges) ELSE Cardinality(Plane0)
Used == CHOOSE S \in SUBSET Charges : Cardinality(S) = Count
Begin == /\ Flying = {} /\ gone = {}
         /\ \E pos \in [Used -> Plane0] : (\A v, w \in Used : pos[v] = pos[w] => v = w)
            /\ \E nx \in [Used -> Sites(lat)] : (\A w \in Used : nx[w] \in Near1(pos[w]))
            /\ \E du \in [Used -> Dwells] : Start(Used, pos, nx, du, {})
(* one cluster may form, of two neighbouring sites of the first planes *)
Formed == {groups} \cup {{{0, 1}}}
Go == \E w \in Flying : /\ due[w] < Horizon /\ First(w)
        /\ \E d \in Dwells, g \in Formed : \E n \in Reach(Landing(w)) : Hop(w, n, d, g)
Again == \E w \in gone, i \in Plane0 : clock < Horizon /\ \E n \in Reach(i), d \in Dwells : Inject(w, i, n, clock, d)
Next == Begin \/ Go \/ Again
Spec == Init /\ [][Next]_tvars
Conserved == (Flying \cup gone # {}) => Cardinality(Flying \cup gone) = Count /\ Flying \cap gone = {}
=============================================================================
