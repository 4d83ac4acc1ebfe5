SPECIFICATION Spec
CONSTANTS Walkers = {1, 2}
 Nets = {1, 2, 3, 4, 5, 6, 7}
 Ts = {8, 4000}
 Ratios = {4, 16}
 Mins = {1}
 Depth = 0
 MaxThr = 4
VIEW View
CONSTRAINT Bound
INVARIANTS OnePerSite Disjoint AtLeastTwo Leavable Connected PotentialKnown AlwaysOneOwner LimitsKnown
PROPERTIES OnlyGrow ThresholdLaw Refines
CHECK_DEADLOCK FALSE
