---------------------------- MODULE WalkerRecord ----------------------------
(* What a walker object remembers (mythical::Walker): the site it is on, the *)
(* site it will try next and how long it stays.  Each is what was last       *)
(* recorded for this very walker; asking for a site that was never recorded  *)
(* is an error.  Walkers are values: a copy starts equal and is independent. *)
EXTENDS Integers
CONSTANT None
VARIABLES cur, pot, dwell        \* functions from walkers
wvars == <<cur, pot, dwell>>
Fresh(w) == cur' = [cur EXCEPT ![w] = None] /\ pot' = [pot EXCEPT ![w] = None] /\ dwell' = [dwell EXCEPT ![w] = None]
Occupy(w, s) == cur' = [cur EXCEPT ![w] = s] /\ UNCHANGED <<pot, dwell>>
SetPotential(w, s) == pot' = [pot EXCEPT ![w] = s] /\ UNCHANGED <<cur, dwell>>
SetDwell(w, d) == dwell' = [dwell EXCEPT ![w] = d] /\ UNCHANGED <<cur, pot>>
Copy(a, b) == /\ cur' = [cur EXCEPT ![b] = cur[a]] /\ pot' = [pot EXCEPT ![b] = pot[a]]
              /\ dwell' = [dwell EXCEPT ![b] = dwell[a]]
(* an operation on one walker changes no other walker *)
OnlyOne == [][\E w \in DOMAIN cur : \A v \in DOMAIN cur \ {w} :
                cur'[v] = cur[v] /\ pot'[v] = pot[v] /\ dwell'[v] = dwell[v]]_wvars
(* the three records are independent of each other, except for Fresh and Copy *)
=============================================================================
