------------------------------ MODULE SiteModel ------------------------------
(* Sites of the network (mythical::Site).  A site refers to rate cells owned *)
(* by someone else: nb[s] maps its neighbours to cells, cell maps cells to   *)
(* their current rate.  basis[s] holds the rates the hop probabilities and   *)
(* the time constant were computed from: those at the last time a rate was   *)
(* added to or replaced in the site.                                         *)
EXTENDS Integers, FiniteSets, Sequences
VARIABLES nb, basis, cell, occ, visits
svars == <<nb, basis, cell, occ, visits>>
RECURSIVE SumOver(_, _)
SumOver(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + SumOver(f, S \ {x})
Total(f) == SumOver(f, DOMAIN f)
Largest(f) == CHOOSE m \in {f[x] : x \in DOMAIN f} : \A x \in DOMAIN f : f[x] <= m
With(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Rates(s) == [n \in DOMAIN nb[s] |-> cell[nb[s][n]]]
(* the probabilities are up to date: no rate changed since *)
FreshSite(s) == DOMAIN nb[s] # {} /\ basis[s] = Rates(s)

(* give neighbour n of site s the cell c, whose rate becomes v *)
Attach(s, n, c, v) ==
  /\ cell' = With(cell, c, v)
  /\ nb' = [nb EXCEPT ![s] = With(@, n, c)]
  /\ basis' = [basis EXCEPT ![s] = [x \in DOMAIN nb'[s] |-> cell'[nb'[s][x]]]]
  /\ UNCHANGED <<occ, visits>>
(* several at once: new maps neighbours to <<cell, rate>> *)
AttachAll(s, new) ==
  /\ LET cs == {new[n][1] : n \in DOMAIN new} IN
     cell' = [c \in DOMAIN cell \cup cs |-> IF c \in cs THEN LET n == CHOOSE n \in DOMAIN new : new[n][1] = c IN new[n][2] ELSE cell[c]]
  /\ nb' = [nb EXCEPT ![s] = [n \in DOMAIN @ \cup DOMAIN new |-> IF n \in DOMAIN new THEN new[n][1] ELSE @[n]]]
  /\ basis' = [basis EXCEPT ![s] = [x \in DOMAIN nb'[s] |-> cell'[nb'[s][x]]]]
  /\ UNCHANGED <<occ, visits>>
Mutate(c, v) == cell' = [cell EXCEPT ![c] = v] /\ UNCHANGED <<nb, basis, occ, visits>>
Occupy(s) == occ' = [occ EXCEPT ![s] = @ + 1] /\ visits' = [visits EXCEPT ![s] = @ + 1] /\ UNCHANGED <<nb, basis, cell>>
(* more often vacated than occupied: not occupied until it evens out *)
Vacate(s) == occ' = [occ EXCEPT ![s] = @ - 1] /\ UNCHANGED <<nb, basis, cell, visits>>
SetStatus(s, v) == occ' = [occ EXCEPT ![s] = v] /\ UNCHANGED <<nb, basis, cell, visits>>
SetVisits(s, v) == visits' = [visits EXCEPT ![s] = v] /\ UNCHANGED <<nb, basis, cell, occ>>
Occupied(s) == occ[s] > 0

(* ---- properties of the design ---- *)
(* a site is up to date right after a change of its own rates *)
UpToDate == [][\A s \in DOMAIN nb : (nb'[s] # nb[s] \/ basis'[s] # basis[s]) => basis'[s] = [x \in DOMAIN nb'[s] |-> cell'[nb'[s][x]]]]_svars
(* occupation changes by one, visits only with an occupation or explicitly *)
Local == [][\E s \in DOMAIN nb : \A t \in DOMAIN nb \ {s} : nb'[t] = nb[t] /\ basis'[t] = basis[t] /\ occ'[t] = occ[t] /\ visits'[t] = visits[t]]_svars
=============================================================================
