SPECIFICATION Spec
CONSTANTS None = None
 Walkers = {1, 2, 3}
 Sites = {3, 0, 1, 7}
 Dwells = {0, 1, 2, 5}
 Depth = 30
CHECK_DEADLOCK FALSE
