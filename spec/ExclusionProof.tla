---------------------------- MODULE ExclusionProof ----------------------------
(* tlapm ExclusionProof.tla: all obligations are proved *)
EXTENDS Exclusion, TLAPS
LEMMA InitInv == Init => Inv
  BY DEF Init, Inv, TypeOK, OnePerSite, Disjoint

LEMMA PosStep == Inv /\ [Next]_vars => OnePerSite' /\ (DOMAIN pos \subseteq Walker /\ pos \in [DOMAIN pos -> Site])'
<1> SUFFICES ASSUME Inv, [Next]_vars PROVE OnePerSite' /\ (DOMAIN pos \subseteq Walker /\ pos \in [DOMAIN pos -> Site])'
  OBVIOUS
<1>1. ASSUME NEW w \in Walker, NEW s \in Site, Place(w, s) PROVE OnePerSite' /\ (DOMAIN pos \subseteq Walker /\ pos \in [DOMAIN pos -> Site])'
  BY <1>1 DEF Inv, TypeOK, OnePerSite, Place, Put
<1>2. ASSUME NEW w \in Walker, NEW s \in Site, Move(w, s) PROVE OnePerSite' /\ (DOMAIN pos \subseteq Walker /\ pos \in [DOMAIN pos -> Site])'
  BY <1>2 DEF Inv, TypeOK, OnePerSite, Move, Put, FreeFor
<1>3. ASSUME NEW w \in Walker, Remove(w) PROVE OnePerSite' /\ (DOMAIN pos \subseteq Walker /\ pos \in [DOMAIN pos -> Site])'
  BY <1>3 DEF Inv, TypeOK, OnePerSite, Remove, Drop
<1>4. CASE UNCHANGED vars
  BY <1>4 DEF Inv, TypeOK, OnePerSite, vars
<1> QED BY <1>1, <1>2, <1>3, <1>4 DEF Next, Hop

LEMMA ClsStep == ASSUME Inv, NEW B \in SUBSET Site, NEW k \in Nat, B # {}, Coarsen(B, k)
                 PROVE Disjoint' /\ (DOMAIN cls \subseteq Nat /\ cls \in [DOMAIN cls -> SUBSET Site])' /\ OnlyGrow
<1>1. CASE Form(B, k)
  BY <1>1 DEF Inv, TypeOK, Disjoint, OnlyGrow, Form, Put, Touched
<1>2. CASE Merge(B, k)
  <2>0. k \in DOMAIN cls /\ DOMAIN cls' = (DOMAIN cls \ Touched(B)) \cup {k}
    BY <1>2 DEF Merge, Touched
  <2>1. cls'[k] = Joined(B)
    BY <1>2, <2>0 DEF Merge
  <2>2. \A c \in DOMAIN cls' : c # k => c \in DOMAIN cls /\ c \notin Touched(B) /\ cls'[c] = cls[c]
    BY <1>2, <2>0 DEF Merge
  <2>3. ASSUME NEW c \in DOMAIN cls, c \notin Touched(B) PROVE cls[c] \cap Joined(B) = {}
    BY <2>3 DEF Inv, Disjoint, Joined, Touched
  <2>4. Disjoint'
    BY <2>0, <2>1, <2>2, <2>3 DEF Disjoint, Inv
  <2>5. (DOMAIN cls \subseteq Nat /\ cls \in [DOMAIN cls -> SUBSET Site])'
    <3>1. Joined(B) \in SUBSET Site
      BY DEF Joined, Touched, Inv, TypeOK
    <3> QED BY <1>2, <2>0, <3>1 DEF Merge, Inv, TypeOK
  <2>6. OnlyGrow
    <3> SUFFICES ASSUME NEW c \in DOMAIN cls PROVE \E d \in DOMAIN cls' : d <= c /\ cls[c] \subseteq cls'[d]
      BY DEF OnlyGrow
    <3>1. CASE c \in Touched(B)
      BY <3>1, <2>0, <2>1, <1>2 DEF Joined, Merge
    <3>2. CASE c \notin Touched(B)
      BY <3>2, <2>0, <2>2, <1>2 DEF Merge, Inv, TypeOK
    <3> QED BY <3>1, <3>2
  <2> QED BY <2>4, <2>5, <2>6
<1> QED BY <1>1, <1>2 DEF Coarsen

LEMMA Kept == ASSUME Inv, cls' = cls
              PROVE Disjoint' /\ (DOMAIN cls \subseteq Nat /\ cls \in [DOMAIN cls -> SUBSET Site])' /\ OnlyGrow
  BY DEF Inv, TypeOK, Disjoint, OnlyGrow

LEMMA ClsNext == Inv /\ [Next]_vars => Disjoint' /\ (DOMAIN cls \subseteq Nat /\ cls \in [DOMAIN cls -> SUBSET Site])' /\ OnlyGrow
<1> SUFFICES ASSUME Inv, [Next]_vars PROVE Disjoint' /\ (DOMAIN cls \subseteq Nat /\ cls \in [DOMAIN cls -> SUBSET Site])' /\ OnlyGrow
  OBVIOUS
<1>1. CASE cls' = cls
  BY <1>1, Kept
<1>2. CASE \E B \in SUBSET Site, k \in Nat : B # {} /\ Coarsen(B, k)
  BY <1>2, ClsStep
<1> QED BY <1>1, <1>2 DEF Next, Place, Hop, Remove, vars

THEOREM Safety == Spec => []Inv
<1>1. Inv /\ [Next]_vars => Inv'
  BY PosStep, ClsNext DEF Inv, TypeOK
<1> QED BY InitInv, <1>1, PTL DEF Spec

THEOREM Growth == Spec => [][OnlyGrow]_vars
<1>1. Inv /\ [Next]_vars => [OnlyGrow]_vars
  BY ClsNext
<1> QED BY Safety, <1>1, PTL DEF Spec
=============================================================================
