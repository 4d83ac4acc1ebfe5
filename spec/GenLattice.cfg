SPECIFICATION Spec
CONSTANTS Max = 4
 Depth = 12
CHECK_DEADLOCK FALSE
