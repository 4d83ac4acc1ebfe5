SPECIFICATION Spec
CONSTANTS Ids = {0, 1, 2, 7}
 Depth = 40
CHECK_DEADLOCK FALSE
