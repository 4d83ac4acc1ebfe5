------------------------------ MODULE MCMarcus ------------------------------
EXTENDS Marcus, TLC, Sequences
CONSTANTS Ls, Ds, Depth
VARIABLES arg, hist
H(x) == hist' = Append(hist, x)
Args == [L : Ls, j : 0..4, d : Ds \cup {0 - x : x \in Ds}, n : 0..12]
Init == arg \in {[L |-> 100, j |-> 1, d |-> 0, n |-> 5]} /\ hist = <<>>
Step == \E a \in Args : arg' = a /\ H(<<"Rate", a.L, a.j, a.d, a.n, Len(hist) % 5, Len(hist) % 2>>)
Done == Depth < 1000 /\ Len(hist) = Depth /\ PrintT(<<"BEH", hist>>) /\ H(<<"End">>) /\ UNCHANGED arg
Next == (Len(hist) < Depth /\ Step) \/ Done
Spec == Init /\ [][Next]_<<arg, hist>>
View == arg
A(P(_, _, _, _)) == P(arg.L, arg.j, arg.d, arg.n)
Balanced == A(DetailedBalance)
CouplingSquared == A(Quadratic)
Fastest == A(Barrierless)
=============================================================================
