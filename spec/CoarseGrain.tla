----------------------------- MODULE CoarseGrain -----------------------------
(* The coarse-grained hopping simulation (mythical::CoarseGrainSystem).      *)
(*                                                                           *)
(* Sites are connected by rates; rates are powers of two from 1 to Tick, so  *)
(* the time of a rate q is Tick/q and all conditions are exact on integers.  *)
(*   net    set of rates <<from, to, q>>           sites  all site ids       *)
(*   conf   [T: time resolution, pn/pd: performance ratio, min: minimum      *)
(*          iteration threshold, Never when coarse graining is off]          *)
(*   cls    cluster id -> set of sites             pos    walker -> site     *)
(*   pot    walker -> site it will try next        iter, thr: hops since the *)
(*          last attempt, hops that must be exceeded for the next attempt    *)
(*   lim    cluster id -> time resolution when it was made or last changed   *)
(*   arr    site -> arrivals while the site was in no cluster                *)
EXTENDS Basin, Sequences, TLC
VARIABLES conf, net, sites, cls, pos, pot, iter, thr, arr, lim
vars == <<conf, net, sites, cls, pos, pot, iter, thr, arr, lim>>
Tick == 1024
Never == 2147483647
BasinLimit == 5
INF == 100000000
Rng(f) == {f[x] : x \in DOMAIN f}
Inside == UNION Rng(cls)
ClusterOf(s) == CHOOSE c \in DOMAIN cls : s \in cls[c]
Targets(S) == {x[2] : x \in {y \in net : y[1] \in S /\ y[2] \notin S}}
IsDrain(s) == \A x \in net : x[1] # s
Free(s) == s \notin Rng(pos)
FreeFor(w, s) == \A v \in DOMAIN pos : v # w => pos[v] # s

(* where a walker on s may be sent: along the rates of s or, in a cluster,   *)
(* to a member (it stays) or along a rate out of the cluster (it leaves)     *)
Stay(s) == IF s \in Inside THEN cls[ClusterOf(s)] ELSE {}
Leave(s) == IF s \in Inside THEN Targets(cls[ClusterOf(s)]) ELSE {x[2] : x \in {y \in net : y[1] = s}}
Options(s) == Stay(s) \cup Leave(s)

(* ---- when coarse graining happens ---- *)
RECURSIVE SumOf(_)
SumOf(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN x[3] + SumOf(S \ {x})
SumOut(S) == SumOf({x \in net : x[1] \in S /\ x[2] \notin S})
Least(S) == CHOOSE x \in S : \A y \in S : x <= y
Relax(B, d) == TLCEval([p \in B \X B |-> Least({d[p]} \cup {LET t == d[<<p[1], k>>] + d[<<k, p[2]>>] IN IF t > INF THEN INF ELSE t : k \in B})])
Direct(B) == TLCEval([p \in B \X B |-> IF p[1] = p[2] THEN 0
                              ELSE IF \E x \in net : x[1] = p[1] /\ x[2] = p[2]
                              THEN Tick \div (CHOOSE x \in net : x[1] = p[1] /\ x[2] = p[2])[3] ELSE INF])
(* the longest of the shortest travel times between two sites of B *)
Longest(B) == MaxOf(Rng(Relax(B, Relax(B, Relax(B, Direct(B))))))
Worth(B) == /\ B # {} /\ SumOut(B) > 0
            /\ LET M == Longest(B) IN
               /\ M < INF /\ 2 * M < conf.T
               /\ Tick * conf.pd > 2 * M * conf.pn * SumOut(B)
BasinAt(s) == BasinOf(net, Rng(cls), s, BasinLimit)
Touched(B) == {c \in DOMAIN cls : cls[c] \cap B # {}}
Joined(B) == B \cup UNION {cls[c] : c \in Touched(B)}
(* attempt from s: does it change anything, and what are the clusters then;  *)
(* new is the id of a new cluster                                            *)
Succeeds(s) == LET B == BasinAt(s) IN
  /\ Cardinality(B) >= 2 /\ Worth(B)
  /\ ~(\E c \in DOMAIN cls : B \subseteq cls[c])
  /\ SumOut(Joined(B)) > 0
After(s, new) == LET B == BasinAt(s) IN
  IF ~Succeeds(s) THEN cls
  ELSE IF Touched(B) = {} THEN [c \in DOMAIN cls \cup {new} |-> IF c = new THEN B ELSE cls[c]]
  ELSE LET keep == Least(Touched(B)) IN
       [c \in (DOMAIN cls \ Touched(B)) \cup {keep} |-> IF c = keep THEN Joined(B) ELSE cls[c]]

(* ---- actions ---- *)
Start(c, N) == /\ conf' = c /\ net' = N /\ sites' = {x[1] : x \in N} \cup {x[2] : x \in N}
               /\ cls' = <<>> /\ pos' = <<>> /\ pot' = <<>> /\ iter' = 0 /\ thr' = c.min
               /\ arr' = [s \in sites' |-> 0] /\ lim' = <<>>
Put(f, w, v) == [x \in DOMAIN f \cup {w} |-> IF x = w THEN v ELSE f[x]]
Drop(f, w) == [x \in DOMAIN f \ {w} |-> f[x]]
Arrive(s) == IF s \in Inside THEN arr ELSE [arr EXCEPT ![s] = @ + 1]
Place(w, s, p) == /\ w \notin DOMAIN pos /\ s \in sites /\ Free(s)
                  /\ pos' = Put(pos, w, s) /\ pot' = Put(pot, w, p) /\ arr' = Arrive(s)
                  /\ UNCHANGED <<conf, net, sites, cls, iter, thr, lim>>
Landing(w) == IF FreeFor(w, pot[w]) THEN pot[w] ELSE pos[w]
Attempts == iter + 1 > thr /\ conf.min # Never
NextThr(ok) == IF ok THEN conf.min ELSE IF thr > Never \div 2 THEN Never ELSE 2 * thr
Limits(C) == [c \in DOMAIN C |-> IF c \in DOMAIN cls /\ cls[c] = C[c] THEN lim[c] ELSE conf.T]
(* s is where w ends up, p where it will go next, C the clusters afterwards *)
Hop(w, s, p, C) == /\ w \in DOMAIN pos
                   /\ pos' = Put(pos, w, s) /\ pot' = Put(pot, w, p) /\ arr' = Arrive(s)
                   /\ IF Attempts THEN iter' = 0 /\ thr' = NextThr(Succeeds(pot[w])) ELSE iter' = iter + 1 /\ thr' = thr
                   /\ cls' = C /\ lim' = Limits(C)
                   /\ UNCHANGED <<conf, net, sites>>
Remove(w) == /\ w \in DOMAIN pos /\ pos' = Drop(pos, w) /\ pot' = Drop(pot, w)
             /\ UNCHANGED <<conf, net, sites, cls, iter, thr, arr, lim>>
SetMin(m) == conf' = [conf EXCEPT !.min = m] /\ thr' = m /\ UNCHANGED <<net, sites, cls, pos, pot, iter, arr, lim>>
(* settings changed in between hold for what happens from then on *)
SetConf(T, pn, pd) == conf' = [conf EXCEPT !.T = T, !.pn = pn, !.pd = pd] /\ UNCHANGED <<net, sites, cls, pos, pot, iter, thr, arr, lim>>

(* ---- properties ---- *)
OnePerSite == \A v, w \in DOMAIN pos : pos[v] = pos[w] => v = w
Disjoint == \A c, d \in DOMAIN cls : c # d => cls[c] \cap cls[d] = {}
AtLeastTwo == \A c \in DOMAIN cls : Cardinality(cls[c]) >= 2
Leavable == \A c \in DOMAIN cls : SumOut(cls[c]) > 0
StrongIn(S) == \A s \in S : Closure({x \in net : x[1] \in S /\ x[2] \in S}, {s}, 0) = S
Connected == \A c \in DOMAIN cls : StrongIn(cls[c])
PotentialKnown == \A w \in DOMAIN pos : ~IsDrain(pos[w]) => pot[w] \in sites
OnlyGrow == [][net' = net => \A c \in DOMAIN cls : \E d \in DOMAIN cls' : d <= c /\ cls[c] \subseteq cls'[d]]_vars
LimitsKnown == DOMAIN lim = DOMAIN cls
ThresholdLaw == [][thr' = thr \/ thr' = conf'.min \/ (thr' >= 2 * thr \/ thr' = Never)]_vars
=============================================================================
