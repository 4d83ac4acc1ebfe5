-------------------------- MODULE TraceWalkerRecord --------------------------
EXTENDS WalkerRecord, TraceCommon
VARIABLE l
K(f, n, c) == Chk(l, f, n, c)
Ev(op) == l <= Len(Trace) /\ Trace[l].op = op /\ l' = l + 1
e == Trace[l]
W == 1..4
(* every event reports all walkers: <<site known, site, next known, next, dwell>> *)
View1(w) == <<IF cur'[w] = None THEN 0 ELSE 1, IF cur'[w] = None THEN 0 ELSE cur'[w],
              IF pot'[w] = None THEN 0 ELSE 1, IF pot'[w] = None THEN 0 ELSE pot'[w]>>
State == /\ K("*", "throw", e.thr = 0)
         /\ K("C12", "site and next site of every walker", \A w \in W : SubSeq(e.ws[w], 1, 4) = View1(w))
         /\ K("C12", "dwell time of every walker", \A w \in W : dwell'[w] # None => e.ws[w][5] = dwell'[w])
TReset == Ev("Reset") /\ cur' = [w \in W |-> None] /\ pot' = [w \in W |-> None] /\ dwell' = [w \in W |-> None] /\ State
TFresh == Ev("Fresh") /\ Fresh(e.w) /\ State
TOccupy == Ev("Occupy") /\ Occupy(e.w, e.s) /\ State
TSetPotential == Ev("SetPotential") /\ SetPotential(e.w, e.s) /\ State
TSetDwell == Ev("SetDwell") /\ SetDwell(e.w, e.s) /\ State
TCopy == Ev("Copy") /\ Copy(e.w, e.s) /\ State
TCrash == Ev("Crash") /\ K("*", "crash", FALSE) /\ UNCHANGED wvars
TNext == TCrash \/ TReset \/ TFresh \/ TOccupy \/ TSetPotential \/ TSetDwell \/ TCopy
TInit == cur = [w \in W |-> None] /\ pot = cur /\ dwell = cur /\ l = 1
TSpec == TInit /\ [][TNext]_<<wvars, l>>
Accepted == PrintT(<<"REACHED", TLCGet("stats").diameter - 1, Len(Trace)>>) /\ TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
