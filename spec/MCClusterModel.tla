---------------------------- MODULE MCClusterModel ----------------------------
EXTENDS ClusterModel, TLC
CONSTANTS Nets, NSlots, Walkers, MaxVis, Resolutions, Depth
VARIABLE hist
H(x) == hist' = Append(hist, x)
(* small networks: <<time weights, edges <<from, to, flow, slow>> >> *)
Both(i, j, v) == {<<i, j, v, 0>>, <<j, i, v, 0>>}
Net(k) == CASE k = 1 -> (* complete on 1..4, one exit each *)
                 <<(1 :> 1 @@ 2 :> 2 @@ 3 :> 3 @@ 4 :> 4), UNION {Both(i, j, 2) : <<i, j>> \in {<<a, b>> \in (1..4) \X (1..4) : a < b}} \cup {<<i, 9, 3, 0>> : i \in 1..4}>>
            [] k = 2 -> (* chain with slow exits at the ends and in the middle *)
                 <<(1 :> 3 @@ 2 :> 1 @@ 3 :> 2 @@ 4 :> 5), Both(1, 2, 2) \cup Both(2, 3, 3) \cup Both(3, 4, 1) \cup {<<1, 9, 1, 1>>, <<2, 8, 2, 1>>, <<4, 9, 2, 1>>, <<3, 8, 1, 1>>}>>
            [] k = 3 -> (* one-way ring, slow exits *)
                 <<(1 :> 1 @@ 2 :> 4 @@ 3 :> 2 @@ 4 :> 1), {<<1, 2, 3, 0>>, <<2, 3, 3, 0>>, <<3, 4, 3, 0>>, <<4, 1, 3, 0>>} \cup {<<1, 8, 1, 1>>, <<3, 9, 3, 1>>, <<2, 9, 1, 1>>, <<4, 9, 1, 1>>}>>
RECURSIVE FlatE(_)
FlatE(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN x \o FlatE(S \ {x})
RECURSIVE FlatM(_, _)
FlatM(f, S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x, f[x]>> \o FlatM(f, S \ {x})
Line(k) == LET n == Net(k) IN <<"Net", 0, 20, 1, Cardinality(DOMAIN n[1])>> \o FlatM(n[1], DOMAIN n[1]) \o <<Cardinality(n[2])>> \o FlatE(n[2])
Edges(k) == {[f |-> x[1], t |-> x[2], v |-> x[3], s |-> x[4]] : x \in Net(k)[2]}
Cs == 1..NSlots
Init == \E k \in Nets : /\ m = Net(k)[1] /\ edges = Edges(k) /\ occ = {}
        /\ mem = [c \in Cs |-> {}] /\ built = mem /\ stay = [c \in Cs |-> EmptyF] /\ res = [c \in Cs |-> 200]
        /\ base = [c \in Cs |-> EmptyF] /\ nvis = [c \in Cs |-> 0] /\ hist = <<Line(k)>>
Current(c) == [i \in built[c] |-> 0]  \* counts do not matter here
Step == \/ \E c \in Cs, i \in Ids : Join(c, {i}) /\ H(<<"AddSite", c, i>>)
        \/ \E c \in Cs, i, j \in Ids : i # j /\ Join(c, {i, j}) /\ H(<<"AddSites", c, 2, i, j>>)
        \/ \E c \in Cs : Update(c, Current(c)) /\ H(<<"Update", c>>)
        \/ \E i \in Ids : OccupyFree(i) /\ H(<<"OccFree", i>>)
        \/ \E i \in Ids : VacateFree(i) /\ H(<<"VacFree", i>>)
        \/ \E c \in Cs, i \in Ids : nvis[c] < MaxVis /\ Occupy(c, i) /\ H(<<"Occ", c, i>>)
        \/ \E c \in Cs, i \in Ids : Vacate(c, i) /\ H(<<"Vac", c, i>>)
        \/ \E c \in Cs, i \in Ids, w \in Walkers : Remove(c, w, i) /\ H(<<"Remove", c, w, i>>)
        \/ \E c \in Cs, w \in Walkers, f \in {TRUE, FALSE} : built[c] # {} /\ w \notin DOMAIN stay[c] /\ Dwell(c, w, f) /\ H(<<"Step", c, w>>)
        \/ \E c \in Cs, w \in Walkers : w \in DOMAIN stay[c] /\ Pick(c, w) /\ H(<<"Step", c, w>>)
        \/ \E c \in Cs, w \in Walkers : built[c] # {} /\ H(<<"Fresh", c, w>>) /\ UNCHANGED cvars
        \/ \E c, d \in Cs : Absorb(c, d, EmptyF) /\ H(<<"Absorb", c, d>>)
        \/ \E c \in Cs, r \in Resolutions : SetRes(c, r, base[c]) /\ H(<<"SetRes", c, r>>)
        \/ \E c \in Cs : built[c] # {} /\ UNCHANGED cvars /\ H(<<"Read", c>>)
Done == Len(hist) = Depth /\ PrintT(<<"BEH", hist>>) /\ H(<<"End">>) /\ UNCHANGED cvars
Next == (Len(hist) < Depth /\ Step) \/ Done
Spec == Init /\ [][Next]_<<cvars, hist>>
View == cvars
=============================================================================
