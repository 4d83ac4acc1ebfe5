SPECIFICATION Spec
CONSTANTS Max = 3
 Depth = 0
INVARIANTS Bijective Metric MinimumImage Translation
CHECK_DEADLOCK FALSE
