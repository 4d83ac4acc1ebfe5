SPECIFICATION Spec
CONSTANTS None = None
 Walkers = {1, 2}
 Sites = {0, 1}
 Dwells = {1, 2}
 Depth = 1000000
VIEW View
INVARIANT TypeOK
PROPERTY OnlyOne
CHECK_DEADLOCK FALSE
