---------------------------- MODULE SystemSetup ----------------------------
(* The order in which a coarse-grained system may be set up and used         *)
(* (CoarseGrainSystem): a time resolution, then the rates, then walkers on   *)
(* known sites.  Every operation either does its job or is refused, and a    *)
(* refused operation changes nothing.                                        *)
EXTENDS Integers, FiniteSets
CONSTANT None
VARIABLES res,      \* time resolution or None
          known,    \* the sites of the system, {} before the rates are given
          walkers,  \* function: walker -> site it is on
          seeded    \* how often a seed was accepted
svars == <<res, known, walkers, seeded>>
Create == res' = None /\ known' = {} /\ walkers' = <<>> /\ seeded' = 0

(* when each call is refused *)
RefuseResolution(v) == v <= 0
RefuseReadResolution == res = None
RefuseSeed == known # {}
RefuseSites == res = None
RefuseWalker(s) == known = {} \/ s = None \/ s \notin known
RefuseQuery(s) == s \notin known

SetResolution(v) == IF RefuseResolution(v) THEN UNCHANGED svars
                    ELSE res' = v /\ UNCHANGED <<known, walkers, seeded>>
SetSeed == IF RefuseSeed THEN UNCHANGED svars
           ELSE seeded' = seeded + 1 /\ UNCHANGED <<res, known, walkers>>
GiveSites(S) == IF RefuseSites THEN UNCHANGED svars
                ELSE known' = known \cup S /\ UNCHANGED <<res, walkers, seeded>>
AddWalker(w, s) == IF RefuseWalker(s) THEN UNCHANGED svars
                   ELSE /\ walkers' = [x \in DOMAIN walkers \cup {w} |-> IF x = w THEN s ELSE walkers[x]]
                        /\ UNCHANGED <<res, known, seeded>>
Move(w, s) == /\ w \in DOMAIN walkers /\ s \in known
              /\ walkers' = [walkers EXCEPT ![w] = s] /\ UNCHANGED <<res, known, seeded>>

(* what the order guarantees *)
SitesNeedResolution == known # {} => res # None
ResolutionPositive == res # None => res > 0
WalkersOnKnownSites == \A w \in DOMAIN walkers : walkers[w] \in known
WalkersNeedSites == walkers # <<>> => known # {}
SeedBeforeSites == [][known # {} => seeded' = seeded]_svars
SitesStay == [][known \subseteq known' /\ (res # None => res' # None)]_svars
=============================================================================
