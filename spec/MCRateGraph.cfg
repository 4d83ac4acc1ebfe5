SPECIFICATION Spec
CONSTANTS Ids = {1, 2, 3}
 Depth = 1000000
VIEW View
INVARIANTS Functional Partition
PROPERTY Monotone
CHECK_DEADLOCK FALSE
