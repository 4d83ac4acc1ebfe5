------------------------------ MODULE TraceSite ------------------------------
EXTENDS SiteModel, TraceCommon
VARIABLE l
K(f, n, c) == Chk(l, f, n, c)
Ev(op) == l <= Len(Trace) /\ Trace[l].op = op /\ l' = l + 1
e == Trace[l]
W == 1..3
Empty == [x \in {} |-> 0]
Same == UNCHANGED svars
NoThrow == K("*", "throw", e.thr = 0)
Ids(s) == {s[k][1] : k \in 1..Len(s)}
At(s, i) == s[CHOOSE k \in 1..Len(s) : s[k][1] = i]

(* what every event reports about site s: rates r = <<neighbour, rate, rate by
   the other getter, probability * 10^6>>, fastest rate, time constant * 10^9 *)
RatesOK(s, x) ==
  LET R == [n \in DOMAIN nb'[s] |-> cell'[nb'[s][n]]] S == Total(R)
      fresh == DOMAIN R # {} /\ basis'[s] = R IN
  /\ K("C13", "neighbours, each once", RangeOf(x.ids) = DOMAIN R /\ NoDup(x.ids))
  /\ K("C13", "is neighbour", \A k \in 1..Len(x.isn) : (x.isn[k][2] = 1) <=> x.isn[k][1] \in DOMAIN R)
  /\ K("C13", "rate to each neighbour", \A n \in DOMAIN R : At(x.r, n)[2] = R[n] /\ At(x.r, n)[3] = R[n])
  /\ K("C13", "rates of all neighbours", RangeOf(x.all) = {R[n] : n \in DOMAIN R} /\ Len(x.all) = Cardinality(DOMAIN R) /\ SumSeq(x.all) = S)
  /\ K("C13", "fastest rate", x.fast = IF DOMAIN R = {} THEN 0 ELSE Largest(R))
  /\ K("C13", "probability = rate / sum of rates", fresh => \A n \in DOMAIN R : Abs(At(x.r, n)[4] * S - 1000000 * R[n]) <= S)
  /\ K("C13", "list of probabilities", fresh => Ids(x.pl) = DOMAIN R /\ Len(x.pl) = Cardinality(DOMAIN R) /\ \A n \in DOMAIN R : At(x.pl, n)[2] = At(x.r, n)[4])
  /\ K("C13", "time constant = 1 / sum of rates", fresh => Abs(x.tc * S - 1000000000) <= S)
OccOK(s, x) ==
  /\ K("C15", "occupied", (x.occ = 1) <=> occ'[s] > 0)
  /\ K("C15", "occupied, site named", (x.occi = 1) <=> occ'[s] > 0)
  /\ K("C15", "visits", x.vis = visits'[s] /\ x.visi = visits'[s])
State == NoThrow /\ \A s \in W : RatesOK(s, e.st[s]) /\ OccOK(s, e.st[s])

TReset == /\ Ev("Reset") /\ nb' = [s \in W |-> Empty] /\ basis' = [s \in W |-> Empty] /\ cell' = Empty
          /\ occ' = [s \in W |-> 0] /\ visits' = [s \in W |-> 0] /\ State
TSet == /\ Ev("SetRates") /\ AttachAll(e.s, [n \in Ids(e.new) |-> <<At(e.new, n)[2], At(e.new, n)[3]>>]) /\ State
TAdd == Ev("AddNeigh") /\ Attach(e.s, e.n, e.c, e.v) /\ State
TRes == Ev("ResetNeigh") /\ Attach(e.s, e.n, e.c, e.v) /\ State
TMut == Ev("Mutate") /\ Mutate(e.c, e.v) /\ State
TOcc == Ev("Occupy") /\ Occupy(e.s) /\ State
TVac == Ev("Vacate") /\ Vacate(e.s) /\ State
TRem == Ev("Remove") /\ Vacate(e.s) /\ State
TSts == Ev("SetStatus") /\ SetStatus(e.s, e.v) /\ State
TVis == Ev("SetVisits") /\ SetVisits(e.s, e.v) /\ State
(* probability times sum over rate, for rates of very different size *)
TWide == /\ Ev("Wide") /\ NoThrow
         /\ K("C13", "probability = rate / sum of rates, wide range", \A k \in 1..Len(e.q) : Abs(e.q[k] - 1000000) <= 1)
         /\ K("C13", "time constant = 1 / sum of rates, wide range", Abs(e.tc - 1000000) <= 1)
         /\ K("C13", "rates, wide range", e.same = 1)
         /\ K("C14", "every pick is a neighbour, wide range", e.bad = 0)
         /\ K("C14", "dwell times are positive, wide range", e.neg = 0)
         /\ Same
(* n draws: c = <<neighbour, picks, picks after a dwell above the median>>,
   q[k] = dwell times above k medians *)
TDraw == LET S == Total(basis[e.s]) IN
         /\ Ev("Draw") /\ NoThrow
         /\ K("C14", "picked sites are neighbours", Ids(e.c) \subseteq DOMAIN basis[e.s])
         /\ K("C14", "every draw picks", SumSeq([k \in 1..Len(e.c) |-> e.c[k][2]]) = e.n)
         /\ K("C14", "each neighbour with probability rate / sum", \A m \in DOMAIN basis[e.s] :
                Likely(IF m \in Ids(e.c) THEN At(e.c, m)[2] ELSE 0, e.n, basis[e.s][m], S))
         /\ K("C14", "dwell times are positive", e.neg = 0)
         /\ K("C14", "dwell times are exponential", \A k \in 1..5 : Likely(e.q[k], e.n, 1, 2^k))
         /\ K("C14", "dwell time and pick are independent", \A m \in DOMAIN basis[e.s] :
                Likely(IF m \in Ids(e.c) THEN At(e.c, m)[3] ELSE 0, e.n, basis[e.s][m], 2 * S))
         /\ K("C14", "successive dwell times are independent", Likely(e.both, e.n \div 2, 1, 4))
         /\ K("C14", "pick and next dwell time are independent", \A m \in DOMAIN basis[e.s] :
                Likely(IF m \in Ids(e.c) THEN At(e.c, m)[4] ELSE 0, e.n - 1, basis[e.s][m], 2 * S))
         /\ K("C14", "successive picks are independent", S <= 24 => \A m \in DOMAIN basis[e.s] :
                Likely(IF m \in Ids(e.c) THEN At(e.c, m)[5] ELSE 0, e.n \div 2, basis[e.s][m] ^ 2, S ^ 2))
         /\ Same
(* m picks without a dwell time between them, then n dwell times without a pick:
   hi[k] above k medians, lo[k] below the 2^-k quantile *)
TRuns == LET S == Total(basis[e.s]) IN
         /\ Ev("Runs") /\ NoThrow
         /\ K("C14", "picks in a row, each neighbour", \A m \in DOMAIN basis[e.s] :
                Likely(IF m \in Ids(e.c) THEN At(e.c, m)[2] ELSE 0, e.m, basis[e.s][m], S))
         /\ K("C14", "picks in a row are neighbours", Ids(e.c) \subseteq DOMAIN basis[e.s])
         /\ K("C14", "picks in a row are independent", S <= 24 => \A m \in DOMAIN basis[e.s] :
                Likely(IF m \in Ids(e.c) THEN At(e.c, m)[3] ELSE 0, e.m \div 2, basis[e.s][m] ^ 2, S ^ 2))
         /\ K("C14", "dwell times in a row are positive", e.neg = 0)
         /\ K("C14", "long dwell times are exponential", \A k \in 1..12 : Likely(e.hi[k], e.n, 1, 2^k))
         /\ K("C14", "short dwell times are exponential", \A k \in 1..12 : Likely(e.lo[k], e.n, 1, 2^k))
         /\ Same
(* many picks where some neighbours are hardly ever picked *)
TRare == LET S == Total(basis[e.s]) IN
         /\ Ev("Rare") /\ NoThrow
         /\ K("C14", "rare picks are neighbours", Ids(e.c) \subseteq DOMAIN basis[e.s])
         /\ K("C14", "rare neighbours with probability rate / sum", \A m \in DOMAIN basis[e.s] :
                Likely(IF m \in Ids(e.c) THEN At(e.c, m)[2] ELSE 0, e.n, basis[e.s][m], S))
         /\ Same
(* two objects with the same seed, and one with another *)
TSeeds == /\ Ev("Seeds") /\ NoThrow
          /\ K("C14", "same seed, same sequence", e.a = e.b)
          /\ K("C14", "another seed, another sequence", e.a # e.c)
          /\ Same
TCrash == Ev("Crash") /\ K("*", "crash", FALSE) /\ Same
TNext == TCrash \/ TReset \/ TSet \/ TAdd \/ TRes \/ TMut \/ TOcc \/ TVac \/ TRem \/ TSts \/ TVis \/ TWide \/ TDraw \/ TRuns \/ TRare \/ TSeeds
TInit == /\ nb = [s \in W |-> Empty] /\ basis = nb /\ cell = Empty /\ occ = [s \in W |-> 0] /\ visits = occ /\ l = 1
TSpec == TInit /\ [][TNext]_<<svars, l>>
Accepted == PrintT(<<"REACHED", TLCGet("stats").diameter - 1, Len(Trace)>>) /\ TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
