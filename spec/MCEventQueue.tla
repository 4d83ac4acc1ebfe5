---------------------------- MODULE MCEventQueue ----------------------------
(* Bounded exhaustive exploration of EventQueue; in simulation mode it also *)
(* prints behaviours (BEH) that are replayed in the real queue.             *)
EXTENDS EventQueue, TLC
CONSTANTS Ids, Times, MaxLen, Depth
VARIABLE hist
Perms(s) == {[i \in 1..Len(s) |-> s[f[i]]] : f \in {g \in [1..Len(s) -> 1..Len(s)] : \A a, b \in 1..Len(s) : a # b => g[a] # g[b]}}
Init == QInit /\ hist = <<>>
H(x) == hist' = Append(hist, x)
NAdd == Len(q) < MaxLen /\ \E id \in Ids, t \in Times : Add(id, t) /\ H(<<"Add", id, t>>)
NSortedAdd == Len(q) < MaxLen /\ \E id \in Ids, t \in Times :
   /\ SortedAdd(id, t, Insert(q, Item(id, t))) /\ H(<<"SortedAdd", id, t>>)
NPop == Pop /\ H(<<"Pop">>)
NSort == \E n \in (IF flag THEN {q} ELSE Perms(q)) : Sort(n) /\ H(<<"Sort">>)
Step == NAdd \/ NSortedAdd \/ NPop \/ NSort
(* in simulation mode: print the behaviour once *)
Done == Len(hist) = Depth /\ PrintT(<<"BEH", hist>>) /\ hist' = Append(hist, <<"End">>) /\ UNCHANGED qvars
Next == (Len(hist) < Depth /\ Step) \/ Done
Spec == Init /\ [][Next]_<<q, flag, hist>>
View == qvars
TypeOK == flag \in BOOLEAN /\ Len(q) <= MaxLen
=============================================================================
