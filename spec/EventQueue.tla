----------------------------- MODULE EventQueue -----------------------------
(* The queue of walkers ordered by the time of their next event             *)
(* (mythical::Queue).  q is the content, front first; flag is what the      *)
(* queue claims about being sorted.  Times are ranks (integers).            *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES q, flag
qvars == <<q, flag>>

Item(id, t) == <<id, t>>
Ordered(s) == \A i \in 1..(Len(s)-1) : s[i][2] <= s[i+1][2]
Count(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
SameItems(a, b) == /\ Len(a) = Len(b)
                   /\ \A i \in 1..Len(a) : Count(a, a[i]) = Count(b, a[i])

(* where a walker with time t goes: behind everyone who is not later *)
InsertPos(s, t) == IF \E i \in 1..Len(s) : s[i][2] > t
                   THEN CHOOSE i \in 1..Len(s) : s[i][2] > t /\ \A j \in 1..(i-1) : s[j][2] <= t
                   ELSE Len(s) + 1
Insert(s, x) == LET p == InsertPos(s, x[2])
                IN SubSeq(s, 1, p-1) \o <<x>> \o SubSeq(s, p, Len(s))

QInit == q = <<>> /\ flag = TRUE

Add(id, t) == q' = Append(q, Item(id, t)) /\ flag' = FALSE

(* next is the resulting content: determined when the queue is sorted,      *)
(* otherwise only required to hold the same walkers plus the new one        *)
SortedAdd(id, t, next) ==
  /\ IF flag THEN next = Insert(q, Item(id, t))
             ELSE SameItems(next, Append(q, Item(id, t)))
  /\ q' = next /\ flag' = flag

Pop == q # <<>> /\ q' = Tail(q) /\ flag' = flag

(* ties may come out in any order *)
Sort(next) == /\ IF flag THEN next = q ELSE SameItems(next, q) /\ Ordered(next)
              /\ q' = next /\ flag' = TRUE

(* ---- properties of the design ---- *)
Truthful == flag => Ordered(q)
NoLoss == [][ /\ Len(q') \in {Len(q)-1, Len(q), Len(q)+1}
              /\ Len(q') < Len(q) => q' = Tail(q)
              /\ (Len(q') < Len(q) /\ flag) => \A i \in 1..Len(q) : q[1][2] <= q[i][2]
            ]_qvars
=============================================================================
