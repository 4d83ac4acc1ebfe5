SPECIFICATION GSpec
CONSTANTS Sites = {0, 1, 2, 3, 4, 5}
 Top = 3
 Depth = 40
CHECK_DEADLOCK FALSE
