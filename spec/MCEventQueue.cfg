SPECIFICATION Spec
CONSTANTS Ids = {1, 2, 3}
 Times = {0, 1, 2}
 MaxLen = 4
 Depth = 1000000
VIEW View
INVARIANTS TypeOK Truthful
PROPERTIES NoLoss
CHECK_DEADLOCK FALSE
