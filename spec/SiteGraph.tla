------------------------------ MODULE SiteGraph ------------------------------
(* A container of sites with the rates off them, as the basin explorer and   *)
(* the adapter to the graph library see it.  sites is the set of known ids,  *)
(* net the set of rates <<from, to, value>>, cl the cluster id per site in a *)
(* cluster.                                                                  *)
EXTENDS Basin, Sequences
VARIABLES sites, net, cl
Groups == {{s \in DOMAIN cl : cl[s] = c} : c \in {cl[s] : s \in DOMAIN cl}}
Load(S, N) == sites' = S /\ net' = N /\ cl' = <<>>
Join(c, S) == cl' = [s \in DOMAIN cl \cup S |-> IF s \in S THEN c ELSE cl[s]] /\ UNCHANGED <<sites, net>>
Change(i, j, v) == net' = {x \in net : ~(x[1] = i /\ x[2] = j)} \cup {<<i, j, v>>} /\ UNCHANGED <<sites, cl>>
HasRate(i, j) == \E x \in net : x[1] = i /\ x[2] = j
EdgesOf(s) == {x \in net : x[1] = s}
=============================================================================
