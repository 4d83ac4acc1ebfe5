SPECIFICATION Spec
CONSTANTS None = None
 Walkers = {1, 2}
 Sites = {1, 2, 3}
 Unknown = {0, 4, 77}
 Resolutions = {0, 1, 2, 3, 5}
 Depth = 30
CHECK_DEADLOCK FALSE
