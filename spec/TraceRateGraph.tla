---------------------------- MODULE TraceRateGraph ----------------------------
EXTENDS RateGraph, TraceCommon
VARIABLE l
K(f, n, c) == Chk(l, f, n, c)
Ev(op) == l <= Len(Trace) /\ Trace[l].op = op /\ l' = l + 1
e == Trace[l]
Same == UNCHANGED edges
Triples(s) == {<<s[k][1], s[k][2], s[k][3]>> : k \in 1..Len(s)}
TReset == Ev("Reset") /\ edges' = {}
TAdd == /\ Ev("Add")
        /\ K("C26", "a pair is accepted once", (e.thr = 0) <=> ~Known(e.i, e.j))
        /\ IF Known(e.i, e.j) THEN Same ELSE Add(e.i, e.j, e.c)
(* the scripts end after a refused AddMany, which may have added a part *)
TAddMany == /\ Ev("AddMany")
            /\ K("C26", "pairs are accepted once", (e.thr = 0) <=> \A x \in Triples(e.es) : ~Known(x[1], x[2]))
            /\ IF \A x \in Triples(e.es) : ~Known(x[1], x[2]) THEN AddMany(Triples(e.es)) ELSE Same
TGet == /\ Ev("Get")
        /\ K("C26", "absent rates are refused", (e.thr = 0) <=> Known(e.i, e.j))
        /\ K("C26", "the very rate that was added", e.thr = 0 => e.c = CellOf(e.i, e.j))
        /\ Same
TCounts == /\ Ev("Counts") /\ K("*", "throw", e.thr = 0)
           /\ K("C26", "incoming count", e.nin = Cardinality(Incoming(e.i)))
           /\ K("C26", "outgoing count", e.nout = Cardinality(Outgoing(e.i)))
           /\ Same
TLists == /\ Ev("Lists") /\ K("*", "throw", e.thr = 0)
          /\ K("C26", "incoming rates", Triples(e.ins) = Incoming(e.i) /\ Len(e.ins) = Cardinality(Incoming(e.i)))
          /\ K("C26", "outgoing rates", Triples(e.outs) = Outgoing(e.i) /\ Len(e.outs) = Cardinality(Outgoing(e.i)))
          /\ Same
TEnds == /\ Ev("Ends") /\ K("*", "throw", e.thr = 0)
         /\ K("C26", "sources", RangeOf(e.sources) = Sources /\ NoDup(e.sources))
         /\ K("C26", "sinks", RangeOf(e.sinks) = Sinks /\ NoDup(e.sinks))
         /\ Same
TCrash == Ev("Crash") /\ K("*", "crash", FALSE) /\ Same
TNext == TCrash \/ TReset \/ TAdd \/ TAddMany \/ TGet \/ TCounts \/ TLists \/ TEnds
TInit == edges = {} /\ l = 1
TSpec == TInit /\ [][TNext]_<<edges, l>>
Accepted == PrintT(<<"REACHED", TLCGet("stats").diameter - 1, Len(Trace)>>) /\ TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
