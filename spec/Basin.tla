-------------------------------- MODULE Basin --------------------------------
(* What the basin of a site is (mythical::BasinExplorer), without reference  *)
(* to how it is explored.  net is a set of rates <<from, to, value>>, cls a  *)
(* set of disjoint sets of sites, the clusters.                              *)
EXTENDS Integers, FiniteSets
MaxOf(S) == IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : x >= y
FastestOff(net, S) == MaxOf({x[3] : x \in {y \in net : y[1] \in S /\ y[2] \notin S}})
FastestOf(net, s) == MaxOf({x[3] : x \in {y \in net : y[1] = s}})
(* rates at least as fast as this are followed; a rate of a lone site to      *)
(* itself counts, one inside a cluster does not                              *)
Floor(net, cls, s) == IF \E c \in cls : s \in c THEN FastestOff(net, CHOOSE c \in cls : s \in c) ELSE FastestOf(net, s)
RECURSIVE Closure(_, _, _)
Closure(net, S, t) ==
  LET N == S \cup {x[2] : x \in {y \in net : y[1] \in S /\ y[3] >= t}}
  IN IF N = S THEN S ELSE Closure(net, N, t)
Unlimited(net, cls, s) == Closure(net, {s}, Floor(net, cls, s))
BasinOf(net, cls, s, limit) ==
  LET B == Unlimited(net, cls, s) IN IF Cardinality(B) > limit THEN {} ELSE B
=============================================================================
