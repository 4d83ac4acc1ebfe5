----------------------------- MODULE ClusterStore -----------------------------
(* The container of clusters (mythical::Cluster_Container): a map from id to *)
(* cluster.  The clusters stored here are regular: n sites base..base+n-1,   *)
(* all connected to each other, each with a rate b to each of the outside    *)
(* sites outs, so that the escape time is exactly 1 / (b * number of outs).  *)
EXTENDS Integers, FiniteSets, Sequences
VARIABLE store
Known(i) == i \in DOMAIN store
With(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Fresh(base, n, b, outs) == [sites |-> base..(base + n - 1), b |-> b, outs |-> outs, occ |-> 0, res |-> 20]
EscapeRate(c) == c.b * Cardinality(c.outs)
Add(i, c) == store' = IF Known(i) THEN store ELSE With(store, i, c)
RECURSIVE Prefix(_, _)
Prefix(st, list) == IF list = <<>> \/ list[1][1] \in DOMAIN st THEN st ELSE Prefix(With(st, list[1][1], list[1][2]), Tail(list))
RECURSIVE Complete(_, _)
Complete(st, list) == list = <<>> \/ (list[1][1] \notin DOMAIN st /\ Complete(With(st, list[1][1], list[1][2]), Tail(list)))
AddList(list) == store' = Prefix(store, list)
Erase(i) == store' = [x \in DOMAIN store \ {i} |-> store[x]]
Occupy(i) == store' = IF Known(i) THEN [store EXCEPT ![i].occ = @ + 1] ELSE store
Vacate(i) == store' = IF Known(i) THEN [store EXCEPT ![i].occ = @ - 1] ELSE store
SetRes(i, r) == store' = IF Known(i) THEN [store EXCEPT ![i].res = r] ELSE store
(* ---- properties of the design ---- *)
Local == [][\E i \in DOMAIN store \cup DOMAIN store' : \A j \in (DOMAIN store \cup DOMAIN store') \ {i} :
              j \in DOMAIN store /\ j \in DOMAIN store' /\ store'[j] = store[j]]_store
Valid == \A i \in DOMAIN store : Cardinality(store[i].sites) >= 2 /\ store[i].res >= 2
=============================================================================
