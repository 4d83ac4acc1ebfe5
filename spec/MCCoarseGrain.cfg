SPECIFICATION Spec
CONSTANTS Walkers = {1, 2}
 Nets = {2, 3, 6, 7}
 Ts = {4000}
 Ratios = {4}
 Mins = {1}
 Depth = 0
 MaxThr = 4
VIEW View
CONSTRAINT Bound
INVARIANTS OnePerSite Disjoint AtLeastTwo Leavable Connected PotentialKnown AlwaysOneOwner LimitsKnown
PROPERTIES OnlyGrow ThresholdLaw
CHECK_DEADLOCK FALSE
