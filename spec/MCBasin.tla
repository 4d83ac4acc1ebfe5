------------------------------- MODULE MCBasin -------------------------------
(* The exploration itself: an admitted edge is chosen in any order, its end  *)
(* explored, and the edges found there admitted when they are not slower     *)
(* than the slowest rate admitted so far.  For every network over Sites with *)
(* rates in 0..Top, every cluster and start, any order ends with BasinOf.    *)
EXTENDS Basin, TLC, Sequences
CONSTANTS Sites, Top, Depth
VARIABLES net, cls, start, limit, explored, frontier, slowest, ended, hist
vars == <<net, cls, start, limit, explored, frontier, slowest, ended, hist>>
Pairs == {p \in Sites \X Sites : p[1] # p[2]}
Clusters == {{}} \cup {{c} : c \in {c \in SUBSET Sites : Cardinality(c) >= 2 /\ c # Sites}}
OutOf(v) == {x \in net : x[1] = v}
(* the set of edges admitted at v and the slowest rate afterwards *)
Admit(v, S, lo) == {x \in OutOf(v) : x[2] \notin S /\ x[3] >= lo}
Init == /\ \E f \in [Pairs -> 0..Top] : net = {<<p[1], p[2], f[p]>> : p \in {q \in Pairs : f[q] > 0}}
        /\ cls \in Clusters /\ start \in Sites /\ limit \in 1..Cardinality(Sites)
        /\ explored = {start} /\ slowest = Floor(net, cls, start)
        /\ frontier = {x \in net : x[1] = start /\ x[3] >= slowest}
        /\ ended = FALSE /\ hist = <<>>
Explore == /\ ~ended /\ frontier # {}
           /\ \E x \in frontier :
                LET S == explored \cup {x[2]} A == Admit(x[2], S, slowest) IN
                /\ explored' = S
                /\ frontier' = {y \in frontier \cup A : y[2] \notin S}
                /\ slowest' = IF A = {} THEN slowest ELSE LET m == CHOOSE m \in {y[3] : y \in A} : \A y \in A : m <= y[3] IN IF m < slowest THEN m ELSE slowest
           /\ ended' = (Cardinality(explored') > limit)
           /\ UNCHANGED <<net, cls, start, limit, hist>>
Spec == Init /\ [][Explore]_vars
Result == IF Cardinality(explored) > limit THEN {} ELSE explored
OrderDoesNotMatter == (ended \/ frontier = {}) => Result = BasinOf(net, cls, start, limit)
Sound == explored \subseteq Unlimited(net, cls, start)
(* growing the limit never loses a basin *)
LimitMonotone == BasinOf(net, cls, start, limit) # {} => BasinOf(net, cls, start, limit + 1) = BasinOf(net, cls, start, limit)

(* ---- generation of scripts: networks and questions ---- *)
G == {<<"Find", s, k>> : s \in Sites, k \in 1..Cardinality(Sites)}
     \cup {<<"Edges", k, s>> : s \in Sites, k \in 0..4}
     \cup {<<"Cluster", s, t>> : s \in Sites, t \in Sites}
     \cup {<<"Mutate", s, t, v>> : s \in Sites, t \in Sites, v \in 1..Top}
GInit == /\ net = {} /\ cls = {} /\ start = 0 /\ limit = 0 /\ explored = {} /\ frontier = {} /\ slowest = 0 /\ ended = FALSE /\ hist = <<>>
GEdge == \E p \in Pairs, v \in 1..Top : /\ Len(hist) < Depth \div 2
                                        /\ hist' = Append(hist, <<"Edge", p[1], p[2], v>>) /\ UNCHANGED <<net, cls, start, limit, explored, frontier, slowest, ended>>
GAsk == /\ Len(hist) >= Depth \div 2 /\ Len(hist) < Depth
        /\ \E g \in G : hist' = Append(hist, g)
        /\ UNCHANGED <<net, cls, start, limit, explored, frontier, slowest, ended>>
GDone == /\ Len(hist) = Depth /\ PrintT(<<"BEH", hist>>) /\ hist' = Append(hist, <<"End">>)
         /\ UNCHANGED <<net, cls, start, limit, explored, frontier, slowest, ended>>
GSpec == GInit /\ [][GEdge \/ GAsk \/ GDone]_vars
=============================================================================
