----------------------------- MODULE TraceGraph -----------------------------
EXTENDS SiteGraph, TraceCommon
VARIABLE l
K(f, n, c) == Chk(l, f, n, c)
Ev(op) == l <= Len(Trace) /\ Trace[l].op = op /\ l' = l + 1
e == Trace[l]
Same == UNCHANGED <<sites, net, cl>>
Triples(s) == {<<s[k][1], s[k][2], s[k][3]>> : k \in 1..Len(s)}
TNet == Ev("Net") /\ K("*", "throw", e.thr = 0) /\ Load(RangeOf(e.ids), Triples(e.es))
TJoin == Ev("Join") /\ K("*", "throw", e.thr = 0) /\ Join(e.c, RangeOf(e.ids))
TChange == Ev("Change") /\ K("*", "throw", e.thr = 0) /\ Change(e.i, e.j, e.v)
Unchanged == /\ Triples(e.rates) = net /\ Len(e.rates) = Cardinality(net)
             /\ \A k \in 1..Len(e.st) : LET x == e.st[k] IN
                  x[1] \in sites /\ x[2] = (IF x[1] \in DOMAIN cl THEN cl[x[1]] ELSE -1) /\ x[3] = 0 /\ x[4] = 0
             /\ Len(e.st) = Cardinality(sites)
TFind == /\ Ev("Find") /\ K("*", "throw", e.thr = 0)
         /\ K("C09", "each site once", NoDup(e.basin))
         /\ K("C09", "the basin", RangeOf(e.basin) = BasinOf(net, Groups, e.s, e.limit))
         /\ K("C09", "the same basin again, also from the same explorer", RangeOf(e.again) = RangeOf(e.basin) /\ RangeOf(e.reused) = RangeOf(e.basin))
         /\ K("C09", "exploring changes nothing", Unchanged)
         /\ Same
(* weights: value times scale, or 10^6 over value *)
Weight(x) == IF e.kind = 3 THEN 1000000 \div x[3] ELSE x[3]
Matches(edge, x) == edge[1] = x[1] /\ edge[2] = x[2] /\ (IF e.kind = 3 THEN Abs(edge[3] - Weight(x)) <= 1 ELSE edge[3] = x[3])
Wanted == UNION {EdgesOf(s) : s \in RangeOf(e.ids)}
TEdges == /\ Ev("Edges") /\ K("*", "throw", e.thr = 0)
          /\ K("C32", "one edge per rate", Len(e.edges) = Cardinality(Wanted) /\ Cardinality({<<e.edges[k][1], e.edges[k][2]>> : k \in 1..Len(e.edges)}) = Cardinality(Wanted))
          /\ K("C32", "edges mirror the rates", \A k \in 1..Len(e.edges) : \E x \in Wanted : Matches(e.edges[k], x))
          /\ K("C32", "the container is not changed", Unchanged)
          /\ Same
TNodes == /\ Ev("Nodes") /\ K("*", "throw", e.thr = 0)
          /\ K("C32", "nodes are the sites asked for", RangeOf(e.nodes) = RangeOf(e.ids) /\ NoDup(e.nodes))
          /\ K("C32", "nodes are objects of their own", e.distinct = Cardinality(RangeOf(e.ids)))
          /\ Same
TCrash == Ev("Crash") /\ K("*", "crash", FALSE) /\ Same
TNext == TCrash \/ TNet \/ TJoin \/ TChange \/ TFind \/ TEdges \/ TNodes
TInit == sites = {} /\ net = {} /\ cl = <<>> /\ l = 1
TSpec == TInit /\ [][TNext]_<<sites, net, cl, l>>
Accepted == PrintT(<<"REACHED", TLCGet("stats").diameter - 1, Len(Trace)>>) /\ TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
