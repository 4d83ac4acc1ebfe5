---------------------------- MODULE MCSystemSetup ----------------------------
EXTENDS SystemSetup, Sequences, TLC
CONSTANTS Walkers, Sites, Unknown, Resolutions, Depth
VARIABLE hist
H(x) == hist' = Append(hist, x)
Free == Sites \ {walkers[w] : w \in DOMAIN walkers}
Init == res = None /\ known = {} /\ walkers = <<>> /\ seeded = 0 /\ hist = <<>>
Step == \/ \E v \in Resolutions : SetResolution(v - 2) /\ H(<<"PSetT", v - 2>>)
        \/ UNCHANGED svars /\ H(<<"PGetT">>)
        \/ seeded < 2 /\ SetSeed /\ H(<<"PSeed", seeded>>)
        \/ known = {} /\ GiveSites(Sites) /\ H(<<"PInit">>)
        \/ \E w \in Walkers \ DOMAIN walkers : \E s \in Free \cup Unknown : AddWalker(w, s) /\ H(<<"PWalkers", 1, w, 1, s>>)
        \/ \E w \in Walkers \ DOMAIN walkers : AddWalker(w, None) /\ H(<<"PWalkers", 1, w, 0, 0>>)
        \/ \E w \in DOMAIN walkers, s \in Free : Move(w, s) /\ H(<<"PHop", w>>)
        \/ \E s \in Sites \cup Unknown : UNCHANGED svars /\ H(<<"PVisits", s>>)
        \/ \E s \in Sites \cup Unknown : UNCHANGED svars /\ H(<<"PCluster", s>>)
Done == Len(hist) = Depth /\ PrintT(<<"BEH", hist>>) /\ hist' = Append(hist, <<"End">>) /\ UNCHANGED svars
Next == (Len(hist) < Depth /\ Step) \/ Done
Spec == Init /\ [][Next]_<<svars, hist>>
View == svars
=============================================================================
