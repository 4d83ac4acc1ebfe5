----------------------------- MODULE TraceMarcus -----------------------------
EXTENDS Marcus, TraceCommon
VARIABLE l
K(f, n, c) == Chk(l, f, n, c)
Ev(op) == l <= Len(Trace) /\ Trace[l].op = op /\ l' = l + 1
e == Trace[l]
TReset == Ev("Reset")
TRate == /\ Ev("Rate") /\ K("*", "throw", e.thr = 0)
         /\ K("C31", "rates are finite and positive", e.ok = 1)
         /\ K("C31", "documented formula", Within(e.ln, LnRate(e.L, e.j, e.d, e.n), 3))
         /\ K("C31", "documented formula, backwards", Within(e.back, LnRate(e.L, e.j, 0 - e.d, e.n), 3))
         /\ K("C31", "detailed balance", Within(e.ln - e.back, 0 - Bias(e.d, e.j), 2))
         /\ K("C31", "asking again, or with both energies moved, or with the sign of the coupling changed", Within(e.again, e.ln, 1) /\ Within(e.moved, e.ln, 1) /\ Within(e.sign, e.ln, 1))
         /\ K("C31", "no coupling, no rate", e.zero = 0)
TCrash == Ev("Crash") /\ K("*", "crash", FALSE)
TNext == TCrash \/ TReset \/ TRate
TInit == l = 1
TSpec == TInit /\ [][TNext]_l
Accepted == PrintT(<<"REACHED", TLCGet("stats").diameter - 1, Len(Trace)>>) /\ TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
