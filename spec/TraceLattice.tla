----------------------------- MODULE TraceLattice -----------------------------
EXTENDS Lattice, TraceCommon
VARIABLE l
K(f, n, c) == Chk(l, f, n, c)
Ev(op) == l <= Len(Trace) /\ Trace[l].op = op /\ l' = l + 1
e == Trace[l]
Same == UNCHANGED lat
TNew == /\ Ev("New")
        /\ K("C27", "negative sizes are refused", (e.thr = 1) <=> (e.n[1] < 0 \/ e.n[2] < 0 \/ e.n[3] < 0))
        /\ K("C27", "sizes, boundaries and spacing", e.thr = 0 => e.gn = e.n /\ e.gper = e.per /\ e.sp = 1)
        /\ lat' = IF e.thr = 0 THEN [n |-> e.n, per |-> e.per] ELSE lat
TIndex == /\ Ev("Index")
          /\ K("C27", "coordinates outside are refused in fixed directions only", (e.thr = 0) <=> CoordOK(lat, e.p))
          /\ K("C27", "index of position", e.thr = 0 => e.i = IndexOf(lat, e.p))
          /\ Same
TIndexV == /\ Ev("IndexV")
           /\ K("C27", "positions must be three valid numbers", (e.thr = 0) <=> (Len(e.p) = 3 /\ CoordOK(lat, e.p)))
           /\ K("C27", "index of position vector", e.thr = 0 => e.i = IndexOf(lat, e.p))
           /\ Same
TPos == /\ Ev("Pos")
        /\ K("C27", "index outside is refused", (e.thr = 0) <=> e.i \in Sites(lat))
        /\ K("C27", "position of index", e.thr = 0 => e.p = PosOf(lat, e.i))
        /\ Same
TCoord == /\ Ev("Coord")
          /\ K("C27", "index outside is refused", \A d \in 1..3 : (e.t[d] = 0) <=> e.i \in Sites(lat))
          /\ K("C27", "coordinates of index", e.i \in Sites(lat) => e.p = PosOf(lat, e.i))
          /\ Same
Ids(s) == {s[k][1] : k \in 1..Len(s)}
PairsOK(i, s, h) == /\ Cardinality(Ids(s)) = Len(s)
                    /\ Ids(s) = Neighbours(lat, i, h)
                    /\ \A k \in 1..Len(s) : s[k][2] = 1000 * Dist2(lat, i, s[k][1])
TNeigh == /\ Ev("Neigh")
          /\ K("C28", "index outside is refused", e.thr = 0 <=> e.i \in Sites(lat))
          /\ K("C28", "neighbours, each once", e.thr = 0 => RangeOf(e.ns) = Neighbours(lat, e.i, e.h) /\ NoDup(e.ns))
          /\ K("C28", "neighbours with distances", e.thr = 0 => PairsOK(e.i, e.nd, e.h))
          /\ Same
TNeighTo == LET h == 2 * Dist2(lat, e.i, e.j) IN
            /\ Ev("NeighTo") /\ K("*", "throw", e.thr = 0)
            /\ K("C28", "neighbours up to the distance of another site", RangeOf(e.ns) = Neighbours(lat, e.i, h) /\ NoDup(e.ns))
            /\ K("C28", "neighbours up to the distance of another site, with distances", PairsOK(e.i, e.nd, h) /\ PairsOK(e.i, e.na, h))
            /\ Same
TNeighPos == /\ Ev("NeighPos")
             /\ K("C28", "positions outside are refused", e.thr = 0 <=> (Len(e.p) = 3 /\ \A d \in 1..3 : InRange(lat, d, e.p[d])))
             /\ K("C28", "neighbours of a position", e.thr = 0 => PairsOK(IndexOf(lat, e.p), e.nd, e.h))
             /\ Same
TNeighAll == /\ Ev("NeighAll")
             /\ K("*", "throw", e.thr = 0)
             /\ K("C28", "only sites of the lattice", e.extra = 0)
             /\ K("C28", "neighbours of the whole lattice", Len(e.all) = Total(lat) /\ \A i \in Sites(lat) : PairsOK(i, e.all[i + 1], e.h))
             /\ Same
TDist == /\ Ev("Dist")
         /\ K("C29", "index outside is refused", e.thr = 0 <=> (e.i \in Sites(lat) /\ e.j \in Sites(lat)))
         /\ K("C29", "smallest distance", e.thr = 0 => e.d = 1000 * Dist2(lat, e.i, e.j))
         /\ Same
TDistAll == /\ Ev("DistAll")
            /\ K("*", "throw", e.thr = 0)
            /\ K("C29", "all distances", \A i, j \in Sites(lat) : e.all[i + 1][j + 1] = 1000 * Dist2(lat, i, j))
            /\ Same
(* counts over all sites of the lattice, plus pairs of successive draws *)
TRand == /\ Ev("Rand")
         /\ K("C30", "plane index outside is refused", e.thr = 0 <=> InRange(lat, e.d, e.k))
         /\ K("C30", "only sites of the plane", e.thr = 0 => \A i \in Sites(lat) : i \in PlaneSites(lat, e.d, e.k) \/ e.c[i + 1] = 0)
         /\ K("C30", "only sites of the lattice", e.thr = 0 => SumSeq(e.c) = e.n)
         /\ K("C30", "uniform", e.thr = 0 => LET P == PlaneSites(lat, e.d, e.k) IN
                \A i \in P : Likely(e.c[i + 1], e.n, 1, Cardinality(P)))
         /\ K("C30", "successive draws independent", (e.thr = 0 /\ e.pc # <<>>) => LET P == PlaneSites(lat, e.d, e.k) m == Cardinality(P) IN
                \A i, j \in P : Likely(e.pc[i + 1][j + 1], e.n \div 2, 1, m * m))
         /\ Same
TCrash == Ev("Crash") /\ K("*", "crash", FALSE) /\ Same
TNext == TCrash \/ TNew \/ TIndex \/ TIndexV \/ TPos \/ TCoord \/ TNeigh \/ TNeighTo \/ TNeighPos \/ TNeighAll \/ TDist \/ TDistAll \/ TRand
TInit == lat = [n |-> <<1, 1, 1>>, per |-> <<0, 0, 0>>] /\ l = 1
TSpec == TInit /\ [][TNext]_<<lat, l>>
Accepted == PrintT(<<"REACHED", TLCGet("stats").diameter - 1, Len(Trace)>>) /\ TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
