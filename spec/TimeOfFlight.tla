---------------------------- MODULE TimeOfFlight ----------------------------
(* Charges crossing a lattice (examples/ToF): lattice, rates, queue and      *)
(* system together.  The energy of site i drops by field * x and rises with  *)
(* its level, both in units in which the Marcus rate from i to j is          *)
(*   2^(u - J u^2 - C d^2),   u = field * (x_j - x_i) + level_i - level_j.   *)
EXTENDS Lattice, TLC
VARIABLES world,       \* [h, F, J, C, Z, lev]: cutoff, field, shape, decay, exponent of the unit, levels
          at,          \* charge -> site, for the charges in flight
          next,        \* charge -> site it will try to enter
          due,         \* charge -> time of its next hop
          clock, gone, \* time of the last hop; charges collected at the last plane
          groups       \* the clusters
tvars == <<lat, world, at, next, due, clock, gone, groups>>
Flying == DOMAIN at
DropF(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
X(i) == PosOf(lat, i)[1]
Drop2(i, j) == world.F * (X(j) - X(i)) + world.lev[i + 1] - world.lev[j + 1]
Exponent(i, j) == LET u == Drop2(i, j) IN u - world.J * u * u - world.C * Dist2(lat, i, j) + world.Z
Weight(i, j) == IF Exponent(i, j) >= 0 THEN 2 ^ Exponent(i, j) ELSE 0
Near1(i) == Neighbours(lat, i, world.h)
RECURSIVE SumW(_, _)
SumW(i, S) == IF S = {} THEN 0 ELSE LET j == CHOOSE j \in S : TRUE IN Weight(i, j) + SumW(i, S \ {j})
TotalW(i) == SumW(i, Near1(i))
Last(i) == X(i) = lat.n[1] - 1
GroupOf(i) == IF \E g \in groups : i \in g THEN CHOOSE g \in groups : i \in g ELSE {i}
(* the sites a charge on site i may try to enter *)
Reach(i) == LET g == GroupOf(i) IN IF g = {i} THEN Near1(i) ELSE UNION {Near1(j) : j \in g} \cup g
First(w) == \A v \in Flying : due[w] <= due[v]
Landing(w) == IF \E v \in Flying \ {w} : at[v] = next[w] THEN at[w] ELSE next[w]

Start(W, pos, nx, du, g) ==
  /\ at' = pos /\ next' = nx /\ due' = du /\ clock' = 0 /\ gone' = {} /\ groups' = g
  /\ UNCHANGED <<lat, world>>
(* g: the clusters afterwards *)
Hop(w, n, d, g) ==
  /\ w \in Flying
  /\ clock' = due[w] /\ groups' = g
  /\ IF Last(Landing(w))
     THEN /\ at' = DropF(at, w) /\ next' = DropF(next, w) /\ due' = DropF(due, w) /\ gone' = gone \cup {w}
     ELSE /\ at' = [at EXCEPT ![w] = Landing(w)] /\ next' = [next EXCEPT ![w] = n] /\ due' = [due EXCEPT ![w] = @ + d] /\ gone' = gone
  /\ UNCHANGED <<lat, world>>

(* a collected charge, or a new one, is put on a free site of the first plane *)
(* when the time is t *)
Inject(w, i, n, t, d) ==
  /\ w \notin Flying /\ i \notin {at[v] : v \in Flying} /\ X(i) = 0
  /\ at' = Put(at, w, i) /\ next' = Put(next, w, n) /\ due' = Put(due, w, t + d) /\ gone' = gone \ {w}
  /\ UNCHANGED <<lat, world, clock, groups>>

(* mean time from the first plane to the last, nearest neighbours only and   *)
(* all levels equal: f forward and b backward along x, in units of 10^-4/Z   *)
RECURSIVE Ahead(_, _, _)
Ahead(k, f, b) == IF k = 0 THEN 100000 \div f ELSE 100000 \div f + (b * Ahead(k - 1, f, b)) \div f
RECURSIVE FlightTime(_, _, _)
FlightTime(k, f, b) == IF k = 0 THEN 0 ELSE Ahead(k - 1, f, b) + FlightTime(k - 1, f, b)

(* ---- properties of the design ---- *)
OnePerSite == \A v, w \in Flying : at[v] = at[w] => v = w
InTheLattice == \A w \in Flying : at[w] \in Sites(lat) /\ ~Last(at[w])
InTimeOrder == \A w \in Flying : due[w] >= clock
ClockAdvances == [][clock' >= clock \/ clock' = 0]_tvars
NoneLost(W) == Flying \cup gone = W /\ Flying \cap gone = {}
Balanced == Flying = {} => \A i \in Sites(lat) : \A j \in Near1(i) : Exponent(i, j) - Exponent(j, i) = 2 * Drop2(i, j)
=============================================================================
