--------------------------- MODULE TraceClusterStore ---------------------------
EXTENDS ClusterStore, TraceCommon
VARIABLE l
K(f, n, c) == Chk(l, f, n, c)
Ev(op) == l <= Len(Trace) /\ Trace[l].op = op /\ l' = l + 1
e == Trace[l]
Same == UNCHANGED store
Row(rows, i) == rows[CHOOSE k \in 1..Len(rows) : rows[k][1] = i]
Keys(rows) == {rows[k][1] : k \in 1..Len(rows)}
(* every event ends with the maps over all clusters: sites, resolutions * 10, *)
(* increments * 10^9                                                          *)
State == /\ K("C25", "size", e.size = Cardinality(DOMAIN store'))
         /\ K("C25", "ids, each once", RangeOf(e.ids) = DOMAIN store' /\ NoDup(e.ids))
         /\ K("C25", "sites of all clusters", Keys(e.sites) = DOMAIN store' /\ Len(e.sites) = Cardinality(DOMAIN store')
              /\ \A i \in DOMAIN store' : RangeOf(Tail(Row(e.sites, i))) = store'[i].sites /\ NoDup(Tail(Row(e.sites, i))))
         /\ K("C25", "resolutions of all clusters", Keys(e.res) = DOMAIN store' /\ Len(e.res) = Cardinality(DOMAIN store')
              /\ \A i \in DOMAIN store' : Row(e.res, i)[2] = 10 * store'[i].res)
         /\ K("C25", "increments of all clusters", Keys(e.inc) = DOMAIN store' /\ Len(e.inc) = Cardinality(DOMAIN store')
              /\ \A i \in DOMAIN store' : store'[i].sites # {} => LET q == EscapeRate(store'[i]) * store'[i].res IN Abs(Row(e.inc, i)[2] * q - 1000000000) <= q)
Refused(i) == K("C25", "refused exactly when the id is unknown", (e.thr = 1) <=> ~Known(i))
Made(x) == Fresh(x.base, x.n, x.b, RangeOf(x.outs))
TReset == Ev("Reset") /\ store' = [i \in {} |-> 0] /\ State
TAdd == Ev("Add") /\ K("C25", "an id is accepted once", (e.thr = 1) <=> Known(e.i)) /\ Add(e.i, Made(e)) /\ State
TAddMany == LET list == [k \in 1..Len(e.es) |-> <<e.es[k].i, Made(e.es[k])>>] IN
            /\ Ev("AddMany") /\ K("C25", "a list is accepted when its ids are new", (e.thr = 0) <=> Complete(store, list))
            /\ AddList(list) /\ State
TErase == Ev("Erase") /\ K("C25", "erasing is never refused", e.thr = 0) /\ Erase(e.i) /\ State
TOcc == Ev("Occ") /\ Refused(e.i) /\ Occupy(e.i) /\ State
TVac == Ev("Vac") /\ Refused(e.i) /\ Vacate(e.i) /\ State
TRes == Ev("SetRes") /\ Refused(e.i) /\ SetRes(e.i, e.r) /\ State
TAsk == /\ Ev("Ask") /\ K("*", "throw", e.thr = 0)
        /\ K("C25", "exists", (e.ex = 1) <=> Known(e.i))
        /\ K("C25", "unknown ids are refused by every query", \A k \in 1..Len(e.t) : (e.t[k] = 1) <=> ~Known(e.i))
        /\ IF ~Known(e.i) THEN TRUE ELSE LET c == store[e.i] IN
           /\ K("C25", "occupied", (e.occ = 1) <=> c.occ > 0)
           /\ K("C25", "neighbours", RangeOf(e.nb) = c.outs /\ NoDup(e.nb))
           /\ K("C25", "fastest rate", e.fast = IF c.sites = {} THEN 0 ELSE c.b)
           /\ K("C25", "time constant", c.sites # {} => Abs(e.tc * EscapeRate(c) - 1000000000) <= EscapeRate(c))
           /\ K("C25", "dwell time is positive and at most the increment", c.sites # {} => e.dw = 1)
           /\ K("C25", "dwell times are those of the cluster stored", c.sites # {} => e.same = 1)
           /\ K("C25", "the cluster itself", e.id = e.i /\ RangeOf(e.mine) = c.sites)
        /\ Same /\ State
TCrash == Ev("Crash") /\ K("*", "crash", FALSE) /\ Same
TNext == TCrash \/ TReset \/ TAdd \/ TAddMany \/ TErase \/ TOcc \/ TVac \/ TRes \/ TAsk
TInit == store = [i \in {} |-> 0] /\ l = 1
TSpec == TInit /\ [][TNext]_<<store, l>>
Accepted == PrintT(<<"REACHED", TLCGet("stats").diameter - 1, Len(Trace)>>) /\ TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
