---------------------------- MODULE TraceSiteStore ----------------------------
EXTENDS SiteStore, TraceCommon
VARIABLE l
K(f, n, c) == Chk(l, f, n, c)
Ev(op) == l <= Len(Trace) /\ Trace[l].op = op /\ l' = l + 1
e == Trace[l]
Same == UNCHANGED store
Fn(pairs) == [n \in {pairs[k][1] : k \in 1..Len(pairs)} |-> pairs[CHOOSE k \in 1..Len(pairs) : pairs[k][1] = n][2]]
Row(i) == e.st[CHOOSE k \in 1..Len(e.st) : e.st[k].id = i]
SiteOK(x, s) ==
  /\ K("C24", "rates of a stored site", Fn(x.r) = s.rates /\ Len(x.r) = Cardinality(DOMAIN s.rates))
  /\ K("C24", "cluster id of a stored site", x.cl = s.cl)
  /\ K("C24", "occupation of a stored site", (x.occ = 1) <=> s.occ > 0)
  /\ K("C24", "visits of a stored site", x.vis = s.vis)
(* every event ends with all sites of the container *)
State == /\ K("C24", "size", e.size = Cardinality(DOMAIN store'))
         /\ K("C24", "ids, each once", RangeOf(e.ids) = DOMAIN store' /\ NoDup(e.ids))
         /\ K("C24", "all sites", {e.st[k].id : k \in 1..Len(e.st)} = DOMAIN store' /\ Len(e.st) = Cardinality(DOMAIN store'))
         /\ \A i \in DOMAIN store' : SiteOK(Row(i), store'[i])
Refused(i) == K("C24", "refused exactly when the id is unknown", (e.thr = 1) <=> ~Known(i))
TReset == Ev("Reset") /\ store' = [i \in {} |-> 0] /\ State
TAdd == Ev("Add") /\ K("C24", "an id is accepted once", (e.thr = 1) <=> Known(e.i)) /\ Add(e.i, Fresh(Fn(e.r))) /\ State
TAddMany == LET list == [k \in 1..Len(e.es) |-> <<e.es[k].i, Fresh(Fn(e.es[k].r))>>] IN
            /\ Ev("AddMany") /\ K("C24", "a list is accepted when its ids are new", (e.thr = 0) <=> Complete(store, list))
            /\ AddList(list) /\ State
TSetCl == Ev("SetCl") /\ Refused(e.i) /\ SetCluster(e.i, e.c) /\ State
TOcc == Ev("Occ") /\ Refused(e.i) /\ Occupy(e.i) /\ State
TVac == Ev("Vac") /\ Refused(e.i) /\ Vacate(e.i) /\ State
TSetVis == Ev("SetVis") /\ Refused(e.i) /\ SetVisits(e.i, e.v) /\ State
(* all queries about one id; q.x = <<threw, value>> *)
TAsk == /\ Ev("Ask") /\ K("*", "throw", e.thr = 0)
        /\ K("C24", "exists", (e.ex = 1) <=> Known(e.i))
        /\ K("C24", "unknown ids are refused by every query", \A k \in 1..Len(e.t) : (e.t[k] = 1) <=> ~Known(e.i))
        /\ K("C24", "rate to a neighbour", IF ~Known(e.i) THEN e.rn[1] = 1 ELSE IF e.n \in DOMAIN store[e.i].rates THEN e.rn = <<0, store[e.i].rates[e.n]>> ELSE e.rn[1] = 2)
        /\ IF ~Known(e.i) THEN TRUE ELSE LET s == store[e.i] IN
           /\ K("C24", "cluster id", e.cl = s.cl)
           /\ K("C24", "part of a cluster", (e.part = 1) <=> s.cl # None)
           /\ K("C24", "occupied", (e.occ = 1) <=> s.occ > 0)
           /\ K("C24", "neighbours", RangeOf(e.nb) = DOMAIN s.rates /\ NoDup(e.nb))
           /\ K("C24", "fastest rate", e.fast = Fastest(s.rates))
           /\ K("C24", "time constant", DOMAIN s.rates # {} => Abs(e.tc * Total(s.rates) - 1000000000) <= Total(s.rates))
           /\ K("C24", "dwell time", DOMAIN s.rates # {} => e.dw = 1)
           /\ K("C24", "the site itself", e.id = e.i)
        /\ Same /\ State
TGroup == /\ Ev("Group") /\ K("*", "throw", e.thr = 0)
          /\ LET G == RangeOf(e.g) IN
             /\ K("C24", "groups with unknown ids are refused", (e.t[1] = 1) <=> ~(G \subseteq DOMAIN store))
             /\ K("C24", "groups with unknown ids are refused", (e.t[2] = 1) <=> ~(G \subseteq DOMAIN store))
             /\ (G \subseteq DOMAIN store) =>
                /\ K("C24", "smallest cluster id", e.small = Smallest(G))
                /\ K("C24", "the sites asked for", RangeOf(e.got) = G /\ NoDup(e.got))
                /\ K("C24", "the sites asked for are those stored", e.same = 1)
          /\ Same /\ State
TAll == /\ Ev("All") /\ K("*", "throw", e.thr = 0)
        /\ K("C24", "rates of all sites", {<<e.m[k][1], e.m[k][2], e.m[k][3]>> : k \in 1..Len(e.m)}
               = UNION {{<<i, n, store[i].rates[n]>> : n \in DOMAIN store[i].rates} : i \in DOMAIN store})
        /\ K("C24", "rates of all sites, each once", Len(e.m) = SumFun([i \in DOMAIN store |-> Cardinality(DOMAIN store[i].rates)], DOMAIN store))
        /\ K("C24", "rates of all sites are the rates themselves", e.alias = 1)
        /\ Same /\ State
TCrash == Ev("Crash") /\ K("*", "crash", FALSE) /\ Same
TNext == TCrash \/ TReset \/ TAdd \/ TAddMany \/ TSetCl \/ TOcc \/ TVac \/ TSetVis \/ TAsk \/ TGroup \/ TAll
TInit == store = [i \in {} |-> 0] /\ l = 1
TSpec == TInit /\ [][TNext]_<<store, l>>
Accepted == PrintT(<<"REACHED", TLCGet("stats").diameter - 1, Len(Trace)>>) /\ TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
