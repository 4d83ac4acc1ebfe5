SPECIFICATION Spec
CONSTANTS Ls = {20, 50, 100, 173, 250}
 Ds = {0, 1, 7, 25, 50, 100, 173, 300}
 Depth = 30
CHECK_DEADLOCK FALSE
