SPECIFICATION Spec
CONSTANTS Max = 4
 Depth = 0
INVARIANTS Bijective Metric MinimumImage Translation Mutual
CHECK_DEADLOCK FALSE
