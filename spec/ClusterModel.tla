----------------------------- MODULE ClusterModel -----------------------------
(* Clusters of sites (mythical::Cluster).                                    *)
(*                                                                           *)
(* The network: m[i] > 0 is the time weight of site i, and an edge           *)
(* [f, t, v, s] is a rate v / m[f] from f to t, times 1/K when s = 1 (slow). *)
(* Time is in units chosen by the driver.  A cluster is a set of sites; it   *)
(* is computed ("built") by an update.  When the flow v inside a cluster is  *)
(* balanced at every site and the cluster is left slowly, or when all its    *)
(* sites have the same flow inside and out, the physics of the cluster is    *)
(* known exactly:                                                            *)
(*   share of hops   P_i  = W_i / sum W      (W_i the flow off i inside)     *)
(*   share of time   pi_i = m_i / sum m                                      *)
(*   escape time     tc   = sum m / sum X    (X_n the flow to outsider n)    *)
(*   exit to n              X_n / sum X                                      *)
EXTENDS Integers, FiniteSets, Sequences
VARIABLES m, edges,   \* the network
          mem,        \* cluster -> its sites
          built,      \* cluster -> its sites at the last update
          occ,        \* occupied sites
          stay,       \* cluster -> walker -> was the last step a full one
          res,        \* cluster -> 10 * resolution
          base, nvis  \* cluster -> site -> visits counted; visits since then
cvars == <<m, edges, mem, built, occ, stay, res, base, nvis>>
EmptyF == [x \in {} |-> 0]
Slots == DOMAIN mem
Ids == DOMAIN m
Drop(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
With(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
RECURSIVE SumOf(_, _)
SumOf(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + SumOf(f, S \ {x})
Flow(E) == SumOf([x \in E |-> x.v], E)

(* ---------------- the network seen by a set of sites S ---------------- *)
Inner(S) == {x \in edges : x.f \in S /\ x.t \in S}
Outer(S) == {x \in edges : x.f \in S /\ x.t \notin S}
Outsiders(S) == {x.t : x \in Outer(S)}
W(S, i) == Flow({x \in Inner(S) : x.f = i})
In(S, i) == Flow({x \in Inner(S) : x.t = i})
All(i) == Flow({x \in edges : x.f = i})
X(S, n) == Flow({x \in Outer(S) : x.t = n})
SumM(S) == SumOf(m, S)
SumX(S) == Flow(Outer(S))
SumW(S) == Flow(Inner(S))
Balanced(S) == \A i \in S : In(S, i) = W(S, i) /\ W(S, i) > 0
RECURSIVE Reach(_, _)
Reach(S, R) == LET N == R \cup {x.t : x \in {y \in Inner(S) : y.f \in R}} IN IF N = R THEN R ELSE Reach(S, N)
Connected(S) == \A i \in S : Reach(S, {i}) = S
Separated(S) == (\A x \in Inner(S) : x.s = 0) /\ (\A x \in Outer(S) : x.s = 1)
Regular(S) == /\ \A x \in Inner(S) \cup Outer(S) : x.s = 0
              /\ \A i, j \in S : W(S, i) = W(S, j) /\ All(i) = All(j)
Proper(S) == Cardinality(S) >= 2 /\ Outer(S) # {} /\ Balanced(S) /\ Connected(S)
SlowlyLeft(S) == Proper(S) /\ Separated(S)
Symmetric(S) == Proper(S) /\ Regular(S)
Solvable(S) == SlowlyLeft(S) \/ Symmetric(S)
(* a is faster than b *)
Faster(a, b) == a.s < b.s \/ (a.s = b.s /\ a.v * m[b.f] > b.v * m[a.f])

(* ------------------------------ actions ------------------------------ *)
Free(i) == \A c \in Slots : i \notin mem[c]
ChangeNet(newM, newE, slots) ==
  /\ m' = newM /\ edges' = newE /\ occ' = {}
  /\ mem' = [c \in slots |-> {}] /\ built' = [c \in slots |-> {}] /\ stay' = [c \in slots |-> EmptyF]
  /\ res' = [c \in slots |-> 200] /\ base' = [c \in slots |-> EmptyF] /\ nvis' = [c \in slots |-> 0]
Join(c, S) == /\ \A i \in S : Free(i)
              /\ mem' = [mem EXCEPT ![c] = @ \cup S]
              /\ UNCHANGED <<m, edges, built, occ, stay, res, base, nvis>>
(* a cluster can be computed when its sites are connected and it can be left *)
Computable(S) == Cardinality(S) >= 2 /\ Outer(S) # {} /\ Connected(S)
(* counts is what the sites of the cluster are known to have been visited *)
Rebuild(c, S, counts) ==
  /\ built' = [built EXCEPT ![c] = S]
  /\ base' = [base EXCEPT ![c] = [i \in S |-> IF i \in DOMAIN counts THEN counts[i] ELSE 0]]
  /\ nvis' = [nvis EXCEPT ![c] = 0]
Update(c, counts) == Computable(mem[c]) /\ Rebuild(c, mem[c], counts) /\ UNCHANGED <<m, edges, mem, occ, stay, res>>
(* put a walker on / take it off a free site (before it joins a cluster) *)
OccupyFree(i) == Free(i) /\ i \notin occ /\ occ' = occ \cup {i} /\ UNCHANGED <<m, edges, mem, built, stay, res, base, nvis>>
VacateFree(i) == Free(i) /\ i \in occ /\ occ' = occ \ {i} /\ UNCHANGED <<m, edges, mem, built, stay, res, base, nvis>>
Occupy(c, i) == /\ i \in built[c] /\ i \notin occ /\ occ' = occ \cup {i}
                /\ nvis' = [nvis EXCEPT ![c] = @ + 1]
                /\ UNCHANGED <<m, edges, mem, built, stay, res, base>>
(* n visits of a site, each ended before the next *)
OccupyMany(c, i, n) == /\ i \in built[c] /\ i \notin occ
                       /\ nvis' = [nvis EXCEPT ![c] = @ + n]
                       /\ UNCHANGED <<m, edges, mem, built, occ, stay, res, base>>
Vacate(c, i) == i \in mem[c] /\ i \in occ /\ occ' = occ \ {i} /\ UNCHANGED <<m, edges, mem, built, stay, res, base, nvis>>
Remove(c, w, i) == /\ i \in mem[c] /\ i \in occ /\ occ' = occ \ {i}
                   /\ stay' = [stay EXCEPT ![c] = Drop(@, w)]
                   /\ UNCHANGED <<m, edges, mem, built, res, base, nvis>>
(* one dwell time of walker w: a full step, or the short step that ends the stay *)
Dwell(c, w, full) == /\ w \in DOMAIN stay[c] => stay[c][w]
                     /\ stay' = [stay EXCEPT ![c] = With(@, w, full)]
                     /\ UNCHANGED <<m, edges, mem, built, occ, res, base, nvis>>
(* the next site of walker w; leaving ends the stay *)
MayPick(c, w) == IF stay[c][w] THEN built[c] ELSE Outsiders(built[c])
Pick(c, w) == /\ w \in DOMAIN stay[c]
              /\ stay' = IF stay[c][w] THEN stay ELSE [stay EXCEPT ![c] = Drop(@, w)]
              /\ UNCHANGED <<m, edges, mem, built, occ, res, base, nvis>>
(* c takes over the sites of d *)
Absorb(c, d, counts) ==
  /\ c # d /\ built[d] = mem[d] /\ mem[d] # {} /\ Computable(mem[c] \cup mem[d])
  /\ mem' = [mem EXCEPT ![c] = @ \cup mem[d], ![d] = {}]
  /\ built' = [built EXCEPT ![c] = mem[c] \cup mem[d], ![d] = {}]
  /\ base' = [base EXCEPT ![c] = [i \in mem[c] \cup mem[d] |-> IF i \in DOMAIN counts THEN counts[i] ELSE 0], ![d] = EmptyF]
  /\ nvis' = [nvis EXCEPT ![c] = 0, ![d] = 0]
  /\ stay' = [stay EXCEPT ![d] = EmptyF]
  /\ UNCHANGED <<m, edges, occ, res>>
SetRes(c, r, counts) == /\ res' = [res EXCEPT ![c] = r]
                        /\ base' = [base EXCEPT ![c] = counts] /\ nvis' = [nvis EXCEPT ![c] = 0]
                        /\ UNCHANGED <<m, edges, mem, built, occ, stay>>
SetVisits(c, counts) == /\ base' = [base EXCEPT ![c] = counts] /\ nvis' = [nvis EXCEPT ![c] = 0]
                        /\ UNCHANGED <<m, edges, mem, built, occ, stay, res>>

Occupied(c) == \E i \in mem[c] : i \in occ
(* ---- properties of the design ---- *)
Disjoint == \A c, d \in Slots : c # d => mem[c] \cap mem[d] = {}
BuiltInside == \A c \in Slots : built[c] \subseteq mem[c] /\ DOMAIN base[c] \subseteq built[c]
OneWalkerEach == occ \subseteq Ids
(* the stationary share of hops is kept by one hop of the internal network: *)
(* what arrives at i, sum over j of P_j v_ji / W_j, is P_i                   *)
Stationary == \A c \in Slots : Solvable(built[c]) => \A i \in built[c] : In(built[c], i) = W(built[c], i)
(* escapes per time balance: the exits sum to one over the escape time *)
ExitsSum == \A c \in Slots : built[c] # {} => SumOf([n \in Outsiders(built[c]) |-> X(built[c], n)], Outsiders(built[c])) = SumX(built[c])
(* sites stay together unless the cluster is absorbed as a whole *)
Together == [][edges' = edges => \A c \in Slots : mem[c] # {} => \E d \in Slots : mem[c] \subseteq mem'[d]]_cvars
=============================================================================
