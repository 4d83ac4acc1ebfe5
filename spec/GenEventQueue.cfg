SPECIFICATION Spec
CONSTANTS Ids = {1, 2, 3, 4, 5}
 Times = {0, 4, 5, 9, 10, 13, 14}
 MaxLen = 5
 Depth = 60
CHECK_DEADLOCK FALSE
