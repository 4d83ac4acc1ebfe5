---------------------------- MODULE MCCoarseGrain ----------------------------
(* Every history of a few walkers on a few networks, with every outcome of   *)
(* the random choices.                                                       *)
EXTENDS CoarseGrain
CONSTANTS Walkers, Nets, Ts, Ratios, Mins, Depth, MaxThr
VARIABLE hist
H(x) == hist' = Append(hist, x)
(* networks are given as functions from an index; see NetOf *)
Two(a, b, f, g) == {<<a, b, f>>, <<b, a, g>>}
NetOf(k) == CASE k = 1 -> Two(1, 2, 1024, 1024) \cup Two(2, 3, 1, 1024)                        \* one pair, an exit, closed
              [] k = 2 -> Two(1, 2, 1024, 512) \cup Two(3, 4, 1024, 1024) \cup Two(2, 3, 64, 64) \cup {<<1, 9, 1>>}  \* two pairs and a drain
              [] k = 3 -> Two(1, 2, 1024, 1024) \cup Two(2, 3, 32, 32) \cup {<<3, 9, 1>>}        \* a pair that grows
              [] k = 4 -> {<<1, 2, 1024>>, <<2, 3, 1024>>, <<3, 1, 1024>>, <<1, 4, 2>>, <<4, 1, 2>>} \* a one-way triangle
              [] k = 5 -> Two(1, 2, 256, 256) \cup Two(2, 3, 256, 256) \cup Two(3, 4, 256, 256) \cup Two(4, 5, 256, 256) \cup Two(5, 6, 256, 256) \* too long
              [] k = 6 -> Two(1, 2, 1024, 1024) \cup Two(3, 4, 1024, 1024) \cup Two(2, 3, 64, 64) \* closed: all would join
              [] k = 7 -> Two(1, 2, 1024, 512) \cup Two(2, 3, 1, 16) \cup {<<1, 1, 512>>, <<3, 3, 64>>} \* rates of a site to itself
Init == /\ \E k \in Nets, T \in Ts, r \in Ratios, m \in Mins :
             /\ conf = [T |-> T, pn |-> r, pd |-> 4, min |-> m] /\ net = NetOf(k) /\ thr = m
             /\ hist = <<<<"Net", k>>, <<"New", T, r, 4, m>>>>
        /\ sites = {x[1] : x \in net} \cup {x[2] : x \in net}
        /\ cls = <<>> /\ pos = <<>> /\ pot = <<>> /\ iter = 0 /\ lim = <<>> /\ arr = [s \in sites |-> 0]
NewId == IF DOMAIN cls = {} THEN 1 ELSE MaxOf(DOMAIN cls) + 1
Opt(s) == IF IsDrain(s) THEN {s} ELSE Options(s)
MPlace == \E w \in Walkers, s \in sites : ~IsDrain(s) /\ (\E p \in Opt(s) : Place(w, s, p)) /\ H(<<"Place", w, s>>)
MHop == \E w \in DOMAIN pos : /\ ~IsDrain(pos[w])
                              /\ \E p \in Opt(Landing(w)) : Hop(w, Landing(w), p, IF Attempts THEN After(pot[w], NewId) ELSE cls)
                              /\ H(<<"Hop", w>>)
MRemove == \E w \in DOMAIN pos : Remove(w) /\ H(<<"Remove", w>>)
(* once per behaviour, and only where a cluster has formed: settings change *)
MSetConf == /\ DOMAIN cls # {} /\ conf.T \in Ts /\ \E T \in {2 * conf.T + 1, conf.T \div 4} : SetConf(T, conf.pn, conf.pd + 3) /\ H(<<"SetConf", T, conf.pn, conf.pd + 3>>)
Step == MPlace \/ MHop \/ MRemove \/ MSetConf
Done == Depth > 0 /\ Len(hist) = Depth /\ PrintT(<<"BEH", hist>>) /\ H(<<"End">>) /\ UNCHANGED vars
Next == ((Depth = 0 \/ Len(hist) < Depth) /\ Step) \/ Done
Spec == Init /\ [][Next]_<<vars, hist>>
View == <<conf, net, cls, pos, pot, iter, thr, lim>>
Bound == thr <= MaxThr
AlwaysOneOwner == \A s \in sites : Cardinality({c \in DOMAIN cls : s \in cls[c]}) <= 1
(* every step is one of Exclusion, which is proved for any number of walkers *)
(* and sites; the witnesses of E!Next are given                              *)
E == INSTANCE Exclusion WITH Site <- 1..9, Walker <- Walkers
EStep == \/ \E w \in Walkers, s \in sites : E!Place(w, s)
         \/ \E w \in DOMAIN pos : E!Move(w, pot[w]) /\ (cls' = cls \/ \E k \in DOMAIN cls' : BasinAt(pot[w]) # {} /\ E!Coarsen(BasinAt(pot[w]), k))
         \/ \E w \in Walkers : E!Remove(w)
Refines == E!Init /\ [][EStep]_<<pos, cls>>
=============================================================================
