----------------------------- MODULE TraceCluster -----------------------------
EXTENDS ClusterModel, TraceCommon
VARIABLES l, seen,  \* cluster ids handed out so far
          method, kexp,
          ab    \* clusters that absorbed or were absorbed
K(f, n, c) == Chk(l, f, n, c)
Ev(op) == l <= Len(Trace) /\ Trace[l].op = op /\ l' = l + 1
e == Trace[l]
tv == <<cvars, l, seen, method, kexp, ab>>
Cs == 1..3
KeepNet == UNCHANGED <<seen, method, kexp, ab>>
Keys(rows) == {rows[k][1] : k \in 1..Len(rows)}
At(rows, i) == rows[CHOOSE k \in 1..Len(rows) : rows[k][1] = i]
Val(rows, i) == IF i \in Keys(rows) THEN At(rows, i)[2] ELSE 0
NoThrow == K("*", "throw", e.thr = 0)
Near(x, want, tol) == x >= want - tol /\ x <= want + tol
(* share a/b in units of 10^-7 *)
Share(x, a, b) == LET s == Dec(a, b, 7) IN Near(x, s, 25 + s \div 3000)
(* the default method of convergence makes only a few iterations *)
Known(S) == Symmetric(S) \/ (SlowlyLeft(S) /\ method # 0 /\ kexp >= 20)
OneMinusExp(r) == CASE r = 20 -> 393469 [] r = 35 -> 248523 [] r = 50 -> 181269 [] r = 200 -> 48771 [] r = 500 -> 19801 [] OTHER -> 0
(* visits credited to site i by n recorded visits of a cluster of S with resolution r / 10 *)
Credit(S, i, n, r) ==
  IF Symmetric(S) THEN LET q == (All(i) * OneMinusExp(r)) \div SumX(S) IN
       (((n % 100) * q) \div 1000000) + ((n \div 100) * q) \div 10000
  ELSE LET q == ((n * W(S, i)) * OneMinusExp(r)) \div SumX(S) IN q + (q \div 1000) * 48 + ((q \div 1000) * 576) \div 1000
CreditKnown(S, r) == OneMinusExp(r) > 0 /\ (Symmetric(S) \/ (SlowlyLeft(S) /\ method # 0 /\ kexp = 20))
Slack(S, v) == IF Symmetric(S) THEN 3 + v \div 20000 ELSE 100 + v \div 1000

(* what every event reports about cluster c *)
Structure(c, x) ==
  /\ K("C16", "sites, each once", RangeOf(x.ids) = mem'[c] /\ NoDup(x.ids))
  /\ K("C16", "number of sites", x.n = Cardinality(mem'[c]))
  /\ K("C16", "site is in cluster", \A k \in 1..Len(x.isin) : (x.isin[k][2] = 1) <=> x.isin[k][1] \in mem'[c])
  /\ K("C16", "sites carry the id of the cluster", Keys(x.info) = mem'[c] /\ \A k \in 1..Len(x.info) : x.info[k][2] = x.id)
  /\ K("C16", "neighbours, each once", mem'[c] = built'[c] => RangeOf(x.nb) = Outsiders(mem'[c]) /\ NoDup(x.nb))
  /\ K("C16", "fastest rate off the cluster", LET O == {k \in 1..Len(e.order) : e.order[k][1] \in mem'[c] /\ e.order[k][2] \notin mem'[c]}
         FE == {y \in edges' : \E k \in O : k \in RangeOf(x.fe) /\ y.f = e.order[k][1] /\ y.t = e.order[k][2]} IN
         IF O = {} THEN x.fz = 1 ELSE FE # {} /\ \A y \in Outer(mem'[c]) : ~Faster(y, CHOOSE z \in FE : TRUE))
AfterAbsorbing(c, x) == c \in ab' =>
  /\ K("C23", "sites after absorbing", RangeOf(x.ids) = mem'[c] /\ NoDup(x.ids) /\ Keys(x.info) = mem'[c] /\ \A k \in 1..Len(x.info) : x.info[k][2] = x.id)
  /\ K("C23", "neighbours after absorbing", mem'[c] = built'[c] => RangeOf(x.nb) = Outsiders(mem'[c]) /\ NoDup(x.nb))
Occupation(f, c, x) ==
  /\ K(f, "occupation of each site", Keys(x.occi) = mem'[c] /\ \A i \in mem'[c] : (At(x.occi, i)[2] = 1) <=> i \in occ')
  /\ K(f, "occupation of the sites returned", \A k \in 1..Len(x.info) : (x.info[k][3] = 1) <=> x.info[k][1] \in occ')
  /\ K(f, "occupation of the cluster", (x.occ = 1) <=> \E i \in mem'[c] : i \in occ')
Physics(f1, f2, c, x) ==
  LET S == built'[c] IN (S # {} /\ Known(S)) =>
  /\ K(f1, "share of hops on each site", Keys(x.P) = S /\ \A i \in S : Share(At(x.P, i)[2], W(S, i), SumW(S)))
  /\ K(f1, "probability of each exit", mem'[c] = S => Keys(x.ex) = Outsiders(S) /\ \A n \in Outsiders(S) : Share(At(x.ex, n)[2], X(S, n), SumX(S)))
  /\ K(f2, "escape time", LET t == Dec(SumM(S), SumX(S), 7) IN Near(IF Symmetric(S) THEN x.tcf ELSE x.tcs, t, 10 + t \div 3000))
Increment(c, x) ==
  built'[c] # {} =>
  /\ K("C18", "resolution", x.res = res'[c])
  /\ K("C18", "increment = escape time / resolution", Near(x.ratio, 1000000, 1))
Visits(f, c, x) ==
  LET S == built'[c] IN
  /\ K(f, "visits of the sites of the cluster", Keys(x.vis) = S)
  /\ K(f, "visits never decrease, and only visits change them", \A i \in S : i \in DOMAIN base'[c] =>
        IF nvis'[c] = 0 THEN At(x.vis, i)[2] = base'[c][i] ELSE At(x.vis, i)[2] >= base'[c][i])
  /\ K(f, "visits credited", (S # {} /\ nvis'[c] > 0 /\ CreditKnown(S, res'[c])) =>
        \A i \in S : LET v == Credit(S, i, nvis'[c], res'[c]) IN Near(At(x.vis, i)[2] - base'[c][i], v, Slack(S, v)))
State == NoThrow /\ \A c \in Cs : LET x == e.cl[c] IN
  /\ Structure(c, x) /\ Occupation("C21", c, x) /\ Increment(c, x) /\ Physics("C17", "C18", c, x) /\ Visits("C22", c, x)
  /\ AfterAbsorbing(c, x)
  /\ c \in ab' => Occupation("C23", c, x) /\ Physics("C23", "C23", c, x) /\ Visits("C23", c, x)
(* the visit counts just before this event *)
Before(c) == LET r == Trace[l - 1].cl[c].vis IN [i \in Keys(r) |-> At(r, i)[2]]

TNet == /\ Ev("Net") /\ ChangeNet([i \in Keys(e.m) |-> At(e.m, i)[2]], {[f |-> e.e[k][1], t |-> e.e[k][2], v |-> e.e[k][3], s |-> e.e[k][4]] : k \in 1..Len(e.e)}, Cs)
        /\ K("C16", "cluster ids are new", LET n == {e.cl[c].id : c \in Cs} IN Cardinality(n) = 3 /\ n \cap seen = {})
        /\ K("C16", "cluster ids are never used again", e.clash = 0)
        /\ seen' = seen \cup {e.cl[c].id : c \in Cs} /\ method' = e.method /\ kexp' = e.kexp /\ ab' = {} /\ State
TAdd == Ev("AddSites") /\ Join(e.c, RangeOf(e.is)) /\ KeepNet
        /\ K("C16", "the sites passed in carry the id of the cluster", \A k \in 1..Len(e.given) : e.given[k] = e.cl[e.c].id) /\ State
TUpd == Ev("Update") /\ Update(e.c, Before(e.c)) /\ KeepNet /\ State
TOccF == Ev("OccFree") /\ OccupyFree(e.i) /\ KeepNet /\ State
TVacF == Ev("VacFree") /\ VacateFree(e.i) /\ KeepNet /\ State
TOcc == Ev("Occ") /\ Occupy(e.c, e.i) /\ KeepNet /\ State
TOccM == Ev("OccMany") /\ OccupyMany(e.c, e.i, e.n) /\ KeepNet /\ State
TMany == Ev("Many") /\ K("C16", "cluster ids are never used again", e.clash = 0) /\ UNCHANGED cvars /\ KeepNet /\ State
TVac == Ev("Vac") /\ Vacate(e.c, e.i) /\ KeepNet /\ State
TRem == Ev("Remove") /\ Remove(e.c, e.w, e.i) /\ KeepNet /\ State
StepOK == /\ K("C19", "dwell time is positive", e.pos = 1)
          /\ K("C19", "dwell time is at most the increment", e.le = 1)
TDwell == Ev("Dwell") /\ NoThrow /\ StepOK /\ Dwell(e.c, e.w, e.full = 1) /\ KeepNet /\ State
TPick == /\ Ev("Pick") /\ NoThrow
         /\ K("C19", "a full step stays inside, a short one leaves", e.to \in MayPick(e.c, e.w))
         /\ K("C20", "no other site is picked", e.to \in built[e.c] \cup Outsiders(built[e.c]))
         /\ Pick(e.c, e.w) /\ KeepNet /\ State
(* a walker that has no stay here behaves like one that was never here *)
TFresh == /\ Ev("Fresh") /\ NoThrow
          /\ K("C19", "a new stay is like that of a new walker", e.w \notin DOMAIN stay[e.c] => e.eq = 1)
          /\ K("C23", "a reused cluster remembers no walker", e.c \in ab /\ e.w \notin DOMAIN stay[e.c] => e.eq = 1)
          /\ UNCHANGED cvars /\ KeepNet /\ State
(* the rest of the stay of w takes the same steps whatever v did meanwhile *)
TIndep == /\ Ev("Indep") /\ NoThrow
          /\ K("C19", "another walker does not change a stay", (e.w \in DOMAIN stay[e.c] /\ stay[e.c][e.w]) => e.eq = 1)
          /\ UNCHANGED cvars /\ KeepNet /\ State
TSkip == Ev("Skip") /\ UNCHANGED cvars /\ KeepNet /\ State
TAbs == Ev("Absorb") /\ Absorb(e.c, e.d, [i \in DOMAIN Before(e.c) \cup DOMAIN Before(e.d) |-> IF i \in DOMAIN Before(e.c) THEN Before(e.c)[i] ELSE Before(e.d)[i]]) /\ ab' = ab \cup {e.c, e.d} /\ UNCHANGED <<seen, method, kexp>> /\ State
TRes == Ev("SetRes") /\ SetRes(e.c, e.r, Before(e.c)) /\ KeepNet /\ State
TRead == /\ Ev("Read") /\ NoThrow
         /\ K("C22", "reading reports the same counts", Keys(e.v) = built[e.c] /\ \A i \in built[e.c] : At(e.v, i)[2] = At(e.cl[e.c].vis, i)[2])
         /\ UNCHANGED cvars /\ KeepNet /\ State
TSetV == /\ Ev("SetVisits") /\ SetVisits(e.c, [Before(e.c) EXCEPT ![e.i] = e.v]) /\ KeepNet /\ State
(* n more visits, read after each of them (a) or once at the end (b) *)
TPoll == LET S == built[e.c] IN /\ Ev("Poll") /\ NoThrow
         /\ K("C22", "reading in between changes nothing", Keys(e.a) = Keys(e.b) /\ \A i \in Keys(e.a) : Near(At(e.a, i)[2], At(e.b, i)[2], 1))
         /\ K("C22", "visits credited to every site", Keys(e.a) # {} /\ S = mem[e.c] /\ CreditKnown(S, res[e.c]) =>
               \A i \in S : LET v == Credit(S, i, nvis[e.c] + e.n, res[e.c]) IN Near(At(e.b, i)[2] - base[e.c][i], v, Slack(S, v)))
         /\ UNCHANGED cvars /\ KeepNet /\ State
(* n stays of several walkers at a time, some removed and put back: q[k] stays *)
(* longer than k medians; in[i] picks of members while staying; out[n] =       *)
(* <<outsider, picks, picks after, picks before a stay above the median>>      *)
TWalk == LET S == built[e.c] N == SumSeq([k \in 1..Len(e.in) |-> e.in[k][2]]) IN
         /\ Ev("Walk") /\ NoThrow
         /\ K("C19", "full steps stay inside, short ones leave", e.fo = 0 /\ e.si = 0)
         /\ K("C19", "dwell times positive and at most the increment", e.bad = 0)
         /\ K("C18", "stays are exponential", \A k \in 1..10 : Likely(e.q[k], e.n, 1, 2^k))
         /\ K("C18", "successive stays are independent", Likely(e.both, e.pairs, 1, 4))
         /\ K("C20", "no other site is picked", Keys(e.in) \subseteq S /\ Keys(e.out) \subseteq Outsiders(S))
         /\ K("C20", "members are picked by their share of time", Known(S) => \A i \in S : Likely(Val(e.in, i), N, m[i], SumM(S)))
         /\ K("C20", "outsiders are picked by their exit probability", Known(S) => \A n \in Outsiders(S) : Likely(Val(e.out, n), e.n, X(S, n), SumX(S)))
         /\ K("C20", "the exit does not depend on the time stayed", Known(S) => \A n \in Outsiders(S) :
                Likely(IF n \in Keys(e.out) THEN At(e.out, n)[3] ELSE 0, e.n, X(S, n), 2 * SumX(S)))
         /\ K("C20", "the next stay does not depend on the exit", Known(S) => \A n \in Outsiders(S) :
                Likely(IF n \in Keys(e.out) THEN At(e.out, n)[4] ELSE 0, e.followed, X(S, n), 2 * SumX(S)))
         /\ K("C20", "successive picks of members are independent", (Known(S) /\ SumM(S) <= 16) => \A i \in S :
                Likely(IF i \in Keys(e.in) THEN At(e.in, i)[3] ELSE 0, e.inp, m[i] * m[i], SumM(S) * SumM(S)))
         /\ UNCHANGED cvars /\ KeepNet /\ State
(* k iterations per site of N sites are k * N of the cluster, three per site  *)
(* unless told otherwise; a tolerance is kept by the last iteration           *)
TIter == /\ Ev("Iter") /\ NoThrow
         /\ K("C17", "tolerance and iterations reported as set", e.set = 1)
         /\ K("C17", "iterations per site", e.site <= 1)
         /\ K("C17", "three iterations per site by default", e.def <= 1)
         /\ K("C17", "the tolerance is kept", e.found > 0 /\ e.kept = 1)
         /\ UNCHANGED cvars /\ KeepNet /\ State
TClosed == /\ Ev("Closed") /\ NoThrow
           /\ K("C18", "no escape time without a way out", e.none = 1)
           /\ UNCHANGED cvars /\ KeepNet /\ State
TCrash == Ev("Crash") /\ K("*", "crash", FALSE) /\ UNCHANGED cvars /\ KeepNet
TNext == TCrash \/ TNet \/ TAdd \/ TUpd \/ TOccF \/ TVacF \/ TOcc \/ TOccM \/ TMany \/ TVac \/ TRem \/ TDwell \/ TPick \/ TFresh \/ TIndep \/ TSkip \/ TAbs \/ TRes \/ TRead \/ TSetV \/ TPoll \/ TWalk \/ TIter \/ TClosed
TInit == /\ m = EmptyF /\ edges = {} /\ mem = [c \in Cs |-> {}] /\ built = mem /\ occ = {} /\ stay = [c \in Cs |-> EmptyF]
         /\ res = [c \in Cs |-> 200] /\ base = [c \in Cs |-> EmptyF] /\ nvis = [c \in Cs |-> 0] /\ l = 1 /\ seen = {} /\ method = 0 /\ kexp = 0 /\ ab = {}
TSpec == TInit /\ [][TNext]_tv
Accepted == PrintT(<<"REACHED", TLCGet("stats").diameter - 1, Len(Trace)>>) /\ TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
