--------------------------- MODULE TraceEventQueue ---------------------------
EXTENDS EventQueue, TraceCommon
VARIABLE l
tvars == <<q, flag, l>>
K(f, n, c) == Chk(l, f, n, c)
Ev(op) == l <= Len(Trace) /\ Trace[l].op = op /\ l' = l + 1
e == Trace[l]

State == /\ K("C11", "size", e.size = Len(q'))
         /\ K("C11", "content", e.q = q')
         /\ K("C11", "isSorted truthful", (e.sorted = 1) => Ordered(q'))
         /\ K("C11", "isSorted claimed", flag' => e.sorted = 1)

TReset == Ev("Reset") /\ q' = <<>> /\ flag' = TRUE /\ State
TAdd == Ev("Add") /\ K("*", "throw", e.thr = 0) /\ Add(e.id, e.t) /\ State
(* the content of the code is adopted when the specification leaves it open *)
TSortedAdd == /\ Ev("SortedAdd") /\ K("*", "throw", e.thr = 0)
              /\ K("C11", "inserted in order", IF flag THEN e.q = Insert(q, Item(e.id, e.t))
                                               ELSE SameItems(e.q, Append(q, Item(e.id, e.t))))
              /\ SortedAdd(e.id, e.t, e.q) /\ State
TPop == /\ Ev("Pop") /\ K("*", "throw", e.thr = 0)
        /\ K("C11", "front", q[1] = <<e.id, e.t>>)
        /\ Pop /\ State
TSort == /\ Ev("Sort") /\ K("*", "throw", e.thr = 0)
         /\ K("C11", "sorted permutation", SameItems(e.q, q) /\ Ordered(e.q))
         /\ K("C11", "sorted queue unchanged", flag => e.q = q)
         /\ Sort(e.q) /\ State
TAt == /\ Ev("At")
       /\ K("C11", "bounds", (e.thr = 0) <=> (e.k >= 0 /\ e.k < Len(q)))
       /\ K("C11", "at", e.thr = 0 => q[e.k + 1] = <<e.id, e.t>>)
       /\ UNCHANGED qvars
TCrash == Ev("Crash") /\ K("*", "crash", FALSE) /\ UNCHANGED qvars
TNext == TCrash \/ TReset \/ TAdd \/ TSortedAdd \/ TPop \/ TSort \/ TAt
TInit == QInit /\ l = 1
TSpec == TInit /\ [][TNext]_tvars
Accepted == PrintT(<<"REACHED", TLCGet("stats").diameter - 1, Len(Trace)>>) /\ TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
