-------------------------- MODULE TraceTimeOfFlight --------------------------
EXTENDS TimeOfFlight, TraceCommon
VARIABLES l, hops      \* hops: number of hops so far, each time is rounded once
K(n, c) == Chk(l, "C33", n, c)
Ev(op) == l <= Len(Trace) /\ Trace[l].op = op /\ l' = l + 1
e == Trace[l]
NoThrow == Chk(l, "*", "throw", e.thr = 0)
Groups(s) == {RangeOf(s[k]) : k \in 1..Len(s)}
Fun(s, c) == [w \in {s[k][1] : k \in 1..Len(s)} |-> (CHOOSE r \in RangeOf(s) : r[1] = w)[c]]
TNet == /\ Ev("Net") /\ NoThrow
        /\ lat' = [n |-> e.n, per |-> e.per] /\ world' = [h |-> e.h, F |-> e.F, J |-> e.J, C |-> e.C, Z |-> e.Z, lev |-> e.lev]
        /\ at' = <<>> /\ next' = <<>> /\ due' = <<>> /\ clock' = 0 /\ gone' = {} /\ groups' = {} /\ hops' = 0
TStart == /\ Ev("Start") /\ NoThrow
          /\ K("charges start on different sites of the first plane", NoDup([k \in 1..Len(e.at) |-> e.at[k][2]]) /\ \A k \in 1..Len(e.at) : e.at[k][2] \in PlaneSites(lat, 1, 0))
          /\ K("dwell times are positive", \A k \in 1..Len(e.at) : e.at[k][4] >= 0 /\ e.at[k][4] < 2000000000)
          /\ Start(1..Len(e.at), Fun(e.at, 2), Fun(e.at, 3), Fun(e.at, 4), Groups(e.cls)) /\ hops' = 0
          /\ K("the first step leads to a neighbour", \A r \in RangeOf(e.at) : r[3] \in Reach(r[2])')
THop == LET w == e.w IN
        /\ Ev("Hop") /\ NoThrow
        /\ K("only charges in flight hop", w \in Flying)
        /\ K("the hop happens at its time", e.front = 1 /\ Abs(e.t - due[w]) <= hops + 2)
        /\ K("the earliest hop comes first", \A v \in Flying : due[w] <= due[v] + hops + 2)
        /\ K("time does not run backwards", e.t + 1 >= clock - hops)
        /\ K("a hop leads to the chosen site if that is free", e.to = Landing(w))
        /\ K("dwell times are positive", e.d >= 0 /\ e.d < 2000000000)
        /\ Hop(w, e.next, e.d, Groups(e.cls)) /\ hops' = hops + 1
        /\ K("collected at the last plane", (e.gone = 1) <=> Last(Landing(w)))
        /\ K("none is lost", e.left = Cardinality(Flying'))
        /\ K("the next step leads to a neighbour", \A x \in {e} : x.w \in Flying' => x.next \in Reach(x.to)')
TInject == LET w == e.w IN
           /\ Ev("Inject") /\ NoThrow
           /\ K("injected at the time of the last hop", Abs(e.t - clock) <= hops + 2)
           /\ K("dwell times are positive", e.d >= 0 /\ e.d < 2000000000)
           /\ Inject(w, e.at, e.next, e.t, e.d) /\ hops' = hops
           /\ K("none is lost", e.left = Cardinality(Flying'))
           /\ K("an injection forms no cluster", Groups(e.cls) = groups)
           /\ K("the first step leads to a neighbour", e.next \in Reach(e.at))
TClear == /\ Ev("Clear") /\ NoThrow
          /\ K("none is lost", RangeOf(e.out) = Flying /\ NoDup(e.out))
          /\ at' = <<>> /\ next' = <<>> /\ due' = <<>> /\ hops' = 0 /\ UNCHANGED <<lat, world, clock, gone, groups>>
Picks(i, j) == SumSeq([k \in 1..Len(e.picks) |-> IF e.picks[k][1] = i /\ e.picks[k][2] = j THEN e.picks[k][3] ELSE 0])
TAlone == /\ Ev("Alone") /\ NoThrow
          /\ K("only to neighbours", \A k \in 1..Len(e.picks) : e.picks[k][2] \in Near1(e.picks[k][1]))
          /\ K("each neighbour with probability rate / sum of rates", \A k \in 1..Len(e.times) : LET i == e.times[k][1] S == TotalW(i) IN
                \A j \in Near1(i) : Likely(Picks(i, j), e.times[k][2], Weight(i, j), S))
          \* the mean of n exponential times, eight standard deviations
          /\ K("mean dwell time is one over the sum of rates", \A k \in 1..Len(e.times) : LET n == e.times[k][2] t == e.times[k][3] S == TotalW(e.times[k][1]) IN
                Abs(MulDiv(t, S, 1000) - n) <= 8 * ISqrt(n) + 8 + S)
          /\ UNCHANGED tvars /\ hops' = hops
TFlights == /\ Ev("Flights") /\ NoThrow
            /\ K("mean time of flight", LET i == 0 f == Weight(0, 1) b == Weight(1, 0) T == FlightTime(lat.n[1] - 1, f, b) IN
                  Abs(e.mean - T) <= 8 * (T \div ISqrt(e.n - 1)) + 10)
            /\ UNCHANGED tvars /\ hops' = hops
TCrash == Ev("Crash") /\ Chk(l, "*", "crash", FALSE) /\ UNCHANGED tvars /\ hops' = hops
TNext == TCrash \/ TNet \/ TStart \/ THop \/ TInject \/ TClear \/ TAlone \/ TFlights
TInit == /\ lat = [n |-> <<1, 1, 1>>, per |-> <<0, 0, 0>>] /\ world = [h |-> 2, F |-> 0, J |-> 0, C |-> 0, Z |-> 0, lev |-> <<0>>]
         /\ at = <<>> /\ next = <<>> /\ due = <<>> /\ clock = 0 /\ gone = {} /\ groups = {} /\ l = 1 /\ hops = 0
TSpec == TInit /\ [][TNext]_<<tvars, l, hops>>
Accepted == PrintT(<<"REACHED", TLCGet("stats").diameter - 1, Len(Trace)>>) /\ TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
