---------------------------- MODULE MCWalkerRecord ----------------------------
EXTENDS WalkerRecord, Sequences, TLC
CONSTANTS Walkers, Sites, Dwells, Depth
VARIABLE hist
H(x) == hist' = Append(hist, x)
Init == cur = [w \in Walkers |-> None] /\ pot = cur /\ dwell = cur /\ hist = <<>>
Step == \/ \E w \in Walkers : Fresh(w) /\ H(<<"Fresh", w>>)
        \/ \E w \in Walkers, s \in Sites : Occupy(w, s) /\ H(<<"Occupy", w, s>>)
        \/ \E w \in Walkers, s \in Sites : SetPotential(w, s) /\ H(<<"SetPotential", w, s>>)
        \/ \E w \in Walkers, d \in Dwells : SetDwell(w, d) /\ H(<<"SetDwell", w, d>>)
        \/ \E a, b \in Walkers : a # b /\ Copy(a, b) /\ H(<<"Copy", a, b>>)
(* in simulation mode: print the behaviour once *)
Done == Len(hist) = Depth /\ PrintT(<<"BEH", hist>>) /\ hist' = Append(hist, <<"End">>) /\ UNCHANGED wvars
Next == (Len(hist) < Depth /\ Step) \/ Done
Spec == Init /\ [][Next]_<<cur, pot, dwell, hist>>
View == wvars
TypeOK == /\ \A w \in Walkers : cur[w] \in Sites \cup {None} /\ pot[w] \in Sites \cup {None} /\ dwell[w] \in Dwells \cup {None}
=============================================================================
