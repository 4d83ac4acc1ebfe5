--------------------------- MODULE TraceSystemSetup ---------------------------
EXTENDS SystemSetup, TraceCommon
VARIABLE l
K(f, n, c) == Chk(l, f, n, c)
Ev(op) == l <= Len(Trace) /\ Trace[l].op = op /\ l' = l + 1
e == Trace[l]
Refused(n, r) == K("C07", n, (e.thr = 1) = r)
SiteOf(x) == IF x = 0 - 1999999999 THEN None ELSE x
TNew == Ev("PNew") /\ K("*", "throw", e.thr = 0) /\ Create
TSetT == Ev("PSetT") /\ Refused("only a positive time resolution is accepted", RefuseResolution(e.v)) /\ SetResolution(e.v)
TGetT == Ev("PGetT") /\ Refused("the time resolution can be read once it is set", RefuseReadResolution)
         /\ K("C07", "the time resolution last accepted", e.thr = 0 => e.v = res) /\ UNCHANGED svars
TSeed == Ev("PSeed") /\ Refused("the seed can only be set before the sites", RefuseSeed) /\ SetSeed
TInit_ == Ev("PInit") /\ Refused("sites need a time resolution", RefuseSites) /\ GiveSites(RangeOf(e.ids))
TMin == Ev("PMin") /\ K("*", "throw", e.thr = 0) /\ UNCHANGED svars
(* a vector of walkers is refused as a whole when one of them is *)
RECURSIVE AddAll(_, _)
AddAll(f, k) == IF k = 0 THEN f ELSE
  LET g == AddAll(f, k - 1) IN [x \in DOMAIN g \cup {e.ws[k]} |-> IF x = e.ws[k] THEN e.at[k] ELSE g[x]]
TWalkers == /\ Ev("PWalkers")
            /\ Refused("walkers need known sites", known = {} \/ \E k \in 1..Len(e.at) : RefuseWalker(SiteOf(e.at[k])))
            /\ K("C07", "accepted walkers are ready to hop", e.thr = 0 => e.ok = 1)
            /\ IF e.thr = 1 THEN UNCHANGED svars
               ELSE walkers' = AddAll(walkers, Len(e.ws)) /\ UNCHANGED <<res, known, seeded>>
THop == /\ Ev("PHop") /\ K("C07", "a walker that was accepted can hop", e.thr = 0 /\ e.pos \in known)
        /\ K("*", "the walker is known", e.w \in DOMAIN walkers)
        /\ Move(e.w, e.pos)
TVisits == /\ Ev("PVisits") /\ Refused("visits of unknown sites are an error", RefuseQuery(e.s))
           /\ K("C07", "visits are a count", e.thr = 0 => e.v >= 0) /\ UNCHANGED svars
TCluster == Ev("PCluster") /\ Refused("the cluster of unknown sites is an error", RefuseQuery(e.s)) /\ UNCHANGED svars
TClusters == /\ Ev("PClusters") /\ K("C07", "clusters can always be listed", e.thr = 0 /\ e.r = e.n /\ e.t = e.n)
             /\ K("C07", "no clusters without sites", known = {} => e.n = 0) /\ UNCHANGED svars
TCrash == Ev("Crash") /\ K("*", "crash", FALSE) /\ UNCHANGED svars
TNext == TCrash \/ TNew \/ TSetT \/ TGetT \/ TSeed \/ TInit_ \/ TMin \/ TWalkers \/ THop \/ TVisits \/ TCluster \/ TClusters
TInit == res = None /\ known = {} /\ walkers = <<>> /\ seeded = 0 /\ l = 1
TSpec == TInit /\ [][TNext]_<<svars, l>>
Accepted == PrintT(<<"REACHED", TLCGet("stats").diameter - 1, Len(Trace)>>) /\ TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
