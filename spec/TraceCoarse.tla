----------------------------- MODULE TraceCoarse -----------------------------
EXTENDS CoarseGrain, TraceCommon
VARIABLES l, seen,
  est  \* cluster id -> [s: its sites, base: sum of their counts when first known since s changed (-1 if not yet), n: arrivals since, inc: increment]
K(f, n, c) == Chk(l, f, n, c)
Ev(op) == l <= Len(Trace) /\ Trace[l].op = op /\ l' = l + 1
e == Trace[l]
Same == UNCHANGED <<vars, seen, est>>
Triples(s) == {<<s[k][1], s[k][2], s[k][3]>> : k \in 1..Len(s)}
Fn(s) == [x \in {s[k][1] : k \in 1..Len(s)} |-> s[CHOOSE k \in 1..Len(s) : s[k][1] = x][2]]
(* what the code reports as its clusters: id -> sites *)
Logged == [c \in {e.cls[k][1] : k \in 1..Len(e.cls)} |->
             LET k == CHOOSE k \in 1..Len(e.cls) : e.cls[k][1] = c IN {e.cls[k][n] : n \in 2..Len(e.cls[k])}]
Sets(s) == {RangeOf(s[k]) : k \in 1..Len(s)}

TNew == /\ Ev("New") /\ K("*", "throw", e.thr = 0)
        /\ Start([T |-> e.T, pn |-> e.pn, pd |-> e.pd, min |-> e.min], Triples(e.es))
        /\ seen' = [s \in sites' |-> 0] /\ est' = <<>>

(* ---- what every event must satisfy; C are the clusters afterwards ---- *)
ClustersOK(C) ==
  /\ K("C03", "ids and sites are listed once", Cardinality(DOMAIN C) = Len(e.cls) /\ \A k \in 1..Len(e.cls) : NoDup(e.cls[k]) \/ (\E n \in 2..Len(e.cls[k]) : e.cls[k][n] = e.cls[k][1]))
  /\ K("C03", "each site is listed once", SumSeq([k \in 1..Len(e.cls) |-> Len(e.cls[k]) - 1]) = Cardinality(UNION Rng(C)))
  /\ K("C03", "at least two known sites per cluster", \A c \in DOMAIN C : Cardinality(C[c]) >= 2 /\ C[c] \subseteq sites)
  /\ K("C03", "the cluster id of each site is the one that lists it",
         Len(e.cid) = Cardinality(UNION Rng(C)) /\ \A k \in 1..Len(e.cid) : e.cid[k][2] \in DOMAIN C /\ e.cid[k][1] \in C[e.cid[k][2]])
  /\ K("C03", "together once, together always", \A c \in DOMAIN cls : \E d \in DOMAIN C : cls[c] \subseteq C[d])
  /\ K("C03", "the smallest id is kept", \A d \in DOMAIN C : LET old == {c \in DOMAIN cls : cls[c] \cap C[d] # {}} IN
         IF old = {} THEN d \notin DOMAIN cls ELSE d = Least(old))
  /\ K("C10", "every cluster has a resolution and an increment", {e.inc[k][1] : k \in 1..Len(e.inc)} = DOMAIN C /\ Len(e.inc) = Cardinality(DOMAIN C))
  /\ K("C10", "the resolution is at least two", \A k \in 1..Len(e.inc) : e.inc[k][2] >= 2000)
  /\ K("C10", "the increment fits the time resolution", \A k \in 1..Len(e.inc) : LET m == Limits(C)[e.inc[k][1]] IN
         e.inc[k][3] >= 0 /\ IF m = conf.T THEN e.inc[k][3] <= 1000001 ELSE e.inc[k][4] <= 10000 * m + 1 + m)
  /\ K("C10", "the increment is as large as allowed", \A k \in 1..Len(e.inc) : LET m == Limits(C)[e.inc[k][1]] IN
         e.inc[k][2] = 2000 \/ IF m = conf.T THEN e.inc[k][3] >= 999999 ELSE e.inc[k][4] >= 10000 * m - 1 - m)
WalkersOK == /\ K("C01", "no walker appears or disappears", {e.all[k][1] : k \in 1..Len(e.all)} = DOMAIN pos' /\ Len(e.all) = Cardinality(DOMAIN pos'))
             /\ K("C01", "every walker is where it was left", \A k \in 1..Len(e.all) : pos'[e.all[k][1]] = e.all[k][2])
             /\ K("C01", "one walker per site", NoDup([k \in 1..Len(e.all) |-> e.all[k][2]]))
(* counts reported now: exact outside clusters, never less than before *)
Reported == IF "vis" \in DOMAIN e THEN Fn(e.vis) ELSE <<>>
CountsOK(inside) ==
  "vis" \in DOMAIN e =>
    /\ K("C06", "counts of all sites", DOMAIN Reported = sites)
    /\ K("C06", "one visit per arrival on a site in no cluster", \A s \in sites \ inside : Reported[s] = arr'[s])
    /\ K("C06", "counts never decrease", \A s \in sites : Reported[s] >= seen[s] /\ Reported[s] >= arr'[s])
    /\ K("C08", "same counts", "tvis" \in DOMAIN e => e.tvis = e.vis)
(* counts in clusters: an arrival stands for the mean number of hops of a     *)
(* recorded step, which takes between r(1-exp(-1/r)) >= 3/4 and 1 increments  *)
AllOf(i) == SumOf({x \in net : x[1] = i})
SumRep(S) == SumFun(Reported, S)
Hundredths(inc, a) == IF inc < 0 \/ inc > 200000000 THEN Never ELSE MulDiv(inc, a, 102400)
Arrivals(S, a) == SumFun(a, S \cap DOMAIN a)
EstimateOK(C, a) ==
  "vis" \in DOMAIN e => \A d \in DOMAIN est : IF est[d].base < 0 THEN TRUE ELSE
    LET S == est[d].s k == Cardinality(S) n == est[d].n + Arrivals(S, a)
        keep == d \in DOMAIN C /\ C[d] = S  m == IF keep THEN n ELSE Max2(0, n - 1)
        hi == Hundredths(est[d].inc, MaxOf({AllOf(i) : i \in S})) lo == Hundredths(est[d].inc, Least({AllOf(i) : i \in S}))
        G == SumRep(S) - est[d].base IN
    IF hi >= 2000000000 \div Max2(1, n) THEN TRUE ELSE
      K("C06", "arrivals in a cluster are counted as the hops they stand for",
        G <= (n * hi) \div 100 + (n * hi) \div 10000 + k + 1 /\ G >= (m * ((lo * 3) \div 4)) \div 100 - (m * lo) \div 10000 - k - 1)
EnteringOK(C) == "vis" \in DOMAIN e => \A s \in (UNION Rng(C)) \ Inside : K("C06", "a site keeps its count when it enters a cluster", Reported[s] = arr'[s])
IncOf(c) == e.inc[CHOOSE k \in 1..Len(e.inc) : e.inc[k][1] = c][4]
NoteEst(C, a) ==
  est' = [c \in DOMAIN C |->
    LET S == C[c] same == c \in DOMAIN est /\ est[c].s = S
        b == IF same THEN est[c].base ELSE IF S \cap Inside = {} THEN SumFun(arr', S) ELSE 0 - 1 IN
    [s |-> S, inc |-> IncOf(c), base |-> IF b < 0 /\ "vis" \in DOMAIN e THEN SumRep(S) ELSE b,
     n |-> IF same /\ b >= 0 THEN est[c].n + Arrivals(S, a) ELSE 0]]
(* a: arrivals per site in this event *)
Note(C, a) == /\ EstimateOK(C, a) /\ EnteringOK(C) /\ NoteEst(C, a)
              /\ seen' = IF "vis" \in DOMAIN e THEN Fn(e.vis) ELSE seen
One(s) == [x \in {s} |-> 1]
(* the step chosen for a walker on s, decided by the clusters before *)
SentOK(s, to, cmp) ==
  /\ K("C02", "sent along a rate", (~IsDrain(s) /\ s \notin Inside) => to \in Leave(s))
  /\ K("C02", "a cluster step is not longer than the increment", s \in Inside => cmp \in {0, -1})
  /\ K("C02", "a full increment stays inside", (s \in Inside /\ cmp = 0) => to \in Stay(s))
  /\ K("C02", "a shorter step leaves along a rate", (s \in Inside /\ cmp = -1) => to \in Leave(s))
StepOK(s) ==
  /\ K("C02", "positive dwell time", ~IsDrain(s) => e.dpos = 1)
  /\ K("C02", "a new dwell time for every step", (~IsDrain(s) /\ s \notin Inside) => e.fresh = 1)
  /\ SentOK(s, e.pot, e.cmp)
  /\ K("C08", "same step", "tdw" \in DOMAIN e => (e.tdw \in -1..1 /\ e.tpos = e.pos /\ e.tpot = e.pot))
  /\ K("C08", "same clusters", "tsets" \in DOMAIN e => e.tsets = e.sets)
TPlace == /\ Ev("Place") /\ K("*", "placing succeeds", e.thr = 0)
          /\ Place(e.w, e.s, e.pot)
          /\ K("C01", "a walker starts where it was put", e.pos = e.s)
          /\ StepOK(e.s) /\ ClustersOK(Logged) /\ WalkersOK /\ CountsOK(Inside) /\ Note(Logged, One(e.s))
          /\ K("C04", "placing a walker does not change clusters", Logged = cls)
THop == /\ Ev("Hop") /\ K("*", "hopping succeeds", e.thr = 0)
        /\ K("C01", "it moves exactly when the site is free", e.pos = Landing(e.w))
        /\ Hop(e.w, e.pos, e.pot, Logged)
        /\ StepOK(e.pos) /\ ClustersOK(Logged) /\ WalkersOK /\ CountsOK(Inside \cup UNION Rng(Logged)) /\ Note(Logged, One(e.pos))
        /\ K("C04", "no attempt, no change", ~Attempts => Logged = cls)
        /\ K("C04", "an attempt changes what the conditions say", Attempts => Rng(Logged) = Rng(After(pot[e.w], 0 - 1)))
(* n hops of one walker that are too few for an attempt; mv: the moves made, *)
(* <<from, potential site, to, next potential site, comparison with the      *)
(* increment>>, arr: arrivals per site                                       *)
TRun == /\ Ev("Run") /\ K("*", "hopping succeeds", e.thr = 0)
        /\ K("*", "no attempt is due in a run", conf.min = Never \/ iter + e.n <= thr)
        /\ \A k \in 1..Len(e.mv) : LET x == e.mv[k] IN
             /\ K("C01", "in a run it moves exactly when the site is free", x[3] = IF FreeFor(e.w, x[2]) THEN x[2] ELSE x[1])
             /\ SentOK(x[3], x[4], x[5])
        /\ K("C02", "positive dwell times in a run", e.bad = 0)
        /\ K("C02", "a new dwell time for every step of a run", e.again = 0)
        /\ K("C08", "same steps in a run", e.tdiff = 0 /\ ("tsets" \in DOMAIN e => e.tsets = e.sets))
        /\ K("C01", "every hop of a run arrives somewhere", SumSeq([k \in 1..Len(e.arr) |-> e.arr[k][2]]) = e.n)
        /\ pos' = Put(pos, e.w, e.pos) /\ pot' = Put(pot, e.w, e.pot) /\ iter' = iter + e.n
        /\ arr' = [s \in sites |-> arr[s] + (IF s \in Inside \/ s \notin {e.arr[k][1] : k \in 1..Len(e.arr)} THEN 0 ELSE Fn(e.arr)[s])]
        /\ UNCHANGED <<conf, net, sites, cls, thr, lim>>
        /\ ClustersOK(Logged) /\ WalkersOK /\ CountsOK(Inside) /\ Note(Logged, Fn(e.arr))
        /\ K("C04", "no attempt in a run, no change", Logged = cls)
TRemove == /\ Ev("Remove") /\ K("*", "removing succeeds", e.thr = 0)
           /\ Remove(e.w) /\ ClustersOK(Logged) /\ WalkersOK /\ CountsOK(Inside) /\ Note(Logged, <<>>)
           /\ K("C04", "removing a walker does not change clusters", Logged = cls)
TVisits == /\ Ev("Visits") /\ K("*", "throw", e.thr = 0) /\ UNCHANGED vars
           /\ "vis" \in DOMAIN e
           /\ K("C06", "counts of all sites", DOMAIN Reported = sites)
           /\ K("C06", "one visit per arrival on a site in no cluster", \A s \in sites \ Inside : Reported[s] = arr[s])
           /\ K("C06", "counts never decrease", \A s \in sites : Reported[s] >= seen[s] /\ Reported[s] >= arr[s])
           /\ K("C06", "reporting changes nothing", Trace[l - 1].op = "Visits" => Reported = seen)
           /\ EstimateOK(cls, <<>>) /\ seen' = Fn(e.vis)
           /\ est' = [c \in DOMAIN est |-> IF est[c].base < 0 THEN [est[c] EXCEPT !.base = SumRep(est[c].s)] ELSE est[c]]
TSetMin == Ev("SetMin") /\ K("*", "throw", e.thr = 0) /\ SetMin(e.min) /\ UNCHANGED <<seen, est>>
TSetConf == Ev("SetConf") /\ K("*", "throw", e.thr = 0) /\ SetConf(e.T, e.pn, e.pd) /\ UNCHANGED <<seen, est>>

(* ---- C05 ---- *)
M == Fn(e.m)
Balanced == \A x \in net : x[2] \in DOMAIN M => \E y \in net : y[1] = x[2] /\ y[2] = x[1] /\ M[x[1]] * x[3] = M[x[2]] * y[3]
SumM(S) == SumFun(M, S)
Groups5 == Rng(Logged) \cup {{s} : s \in DOMAIN M \ UNION Rng(Logged)}
PerMille(k) == 50 + 9900 \div Max2(1, ISqrt(k) - 1)
RECURSIVE EntriesInto(_, _)
EntriesInto(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + EntriesInto(f, S \ {x})
(* shares of time per 100000, entries: arrivals from outside the group *)
TLong == /\ Ev("Long") /\ K("*", "throw", e.thr = 0)
         /\ K("*", "the network is in detailed balance", Balanced /\ DOMAIN M = sites)
         /\ LET T == Fn(e.time) N == Fn(e.entries) IN
              e.same = 1 => \A g \in Groups5 :
                 LET n == EntriesInto(N, g) want == (100000 \div SumM(sites)) * SumM(g) + ((100000 % SumM(sites)) * SumM(g)) \div SumM(sites)
                     got == EntriesInto(T, g) tol == (want * PerMille(n)) \div 1000 + 50 IN
                 K("C05", "share of time in equilibrium", n >= 2500 => (got >= want - tol /\ got <= want + tol))
         /\ cls' = Logged /\ lim' = Limits(Logged) /\ UNCHANGED <<conf, net, sites, pos, pot, iter, thr, arr, seen, est>>
(* several walkers on the fine-grained network: a set of sites is occupied     *)
(* with a probability proportional to the product of its weights               *)
RECURSIVE Elementary(_, _)
Elementary(S, k) == IF k = 0 THEN 1 ELSE IF Cardinality(S) < k THEN 0 ELSE
  LET x == CHOOSE x \in S : TRUE IN Elementary(S \ {x}, k) + M[x] * Elementary(S \ {x}, k - 1)
TCrowd == /\ Ev("Crowd") /\ K("*", "throw", e.thr = 0)
          /\ K("*", "the network is in detailed balance", Balanced /\ DOMAIN M = sites)
          /\ K("C05", "no coarse graining when it is switched off", Logged = <<>>)
          /\ LET T == Fn(e.time) N == Fn(e.entries) IN
             \A s \in sites : LET want == (((100000 \div e.walkers) * M[s]) * Elementary(sites \ {s}, e.walkers - 1)) \div Elementary(sites, e.walkers)
                 tol == (want * (10 + 14000 \div Max2(1, ISqrt(N[s]) - 1))) \div 1000 + 50 IN
                 K("C05", "share of time with several walkers", T[s] >= want - tol /\ T[s] <= want + tol)
          /\ UNCHANGED <<conf, cls, net, sites, pos, pot, iter, thr, arr, lim, seen, est>>
(* groups in a row, the last one followed by the drain: the mean time to     *)
(* reach the drain is the sum over links of mass before over conductance     *)
Conductance(A, B) == SumOf({<<x[1], x[2], M[x[1]] * x[3]>> : x \in {y \in net : y[1] \in A /\ y[2] \in B}})
RECURSIVE MassUpTo(_)
MassUpTo(k) == IF k = 0 THEN 0 ELSE MassUpTo(k - 1) + SumM(RangeOf(e.groups[k]))
Drains == {s \in sites : IsDrain(s)}
RECURSIVE Passage(_)
Passage(k) == IF k > Len(e.groups) THEN 0 ELSE
  LET to == IF k = Len(e.groups) THEN Drains ELSE RangeOf(e.groups[k + 1]) IN
  (Tick * MassUpTo(k)) \div Conductance(RangeOf(e.groups[k]), to) + Passage(k + 1)
TPassage == /\ Ev("Passage") /\ K("*", "throw", e.thr = 0)
            /\ LET want == Passage(1) tol == (want * (25 + (7000 \div ISqrt(e.n)))) \div 1000 + 1 IN
               K("C05", "mean time to the drain", e.mean >= want - tol /\ e.mean <= want + tol)
            /\ LET Last == RangeOf(e.groups[Len(e.groups)]) C == Conductance(Last, Drains)
                   Got(d) == IF \E k \in 1..Len(e.ends) : e.ends[k][1] = d THEN Fn(e.ends)[d] ELSE 0 IN
               \A d \in Drains : LET c == Conductance(Last, {d}) IN
                 K("C05", "share of walkers that end on each drain", Abs(Got(d) * C - e.n * c) <= 7 * ISqrt(e.n * c * (C - c)) + (e.n \div 100) * 2 * c)
            /\ cls' = Logged /\ lim' = Limits(Logged) /\ UNCHANGED <<conf, net, sites, pos, pot, iter, thr, arr, seen, est>>
(* ---- C08: three systems, the first two with the same seed ---- *)
TSeeds == /\ Ev("Seeds") /\ K("*", "throw", e.thr = 0)
          /\ K("C08", "same seed, same steps", e.a = e.b /\ RangeOf(e.ab) \subseteq -1..1)
          /\ K("C08", "another seed, other dwell times", \A k \in 1..Min2(3, Len(e.ac)) : e.ac[k] \notin -1..1)
          /\ K("C08", "sites draw from different sequences", e.near > 1)
          /\ Same
(* three clusters of one system, made and seeded in turn, and a site *)
TCSeeds == /\ Ev("ClusterSeeds") /\ K("*", "throw", e.thr = 0)
           /\ K("C08", "clusters draw from sequences of their own", e.formed = 1 => e.near > 10)
           /\ K("C08", "same seed, same stays in clusters", e.same = 1)
           /\ Same
TCrash == Ev("Crash") /\ K("*", "crash", FALSE) /\ Same
TNext == TCrash \/ TNew \/ TPlace \/ THop \/ TRun \/ TRemove \/ TVisits \/ TSetMin \/ TSetConf \/ TLong \/ TCrowd \/ TPassage \/ TSeeds \/ TCSeeds
TInit == /\ conf = <<>> /\ net = {} /\ sites = {} /\ cls = <<>> /\ pos = <<>> /\ pot = <<>> /\ iter = 0 /\ thr = 0 /\ arr = <<>> /\ lim = <<>>
         /\ l = 1 /\ seen = <<>> /\ est = <<>>
TSpec == TInit /\ [][TNext]_<<vars, l, seen, est>>
Accepted == PrintT(<<"REACHED", TLCGet("stats").diameter - 1, Len(Trace)>>) /\ TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
