SPECIFICATION Spec
CONSTANTS Sites = {1, 2}
 Neighs = {1, 2}
 Cells = {1, 2}
 Vals = {1, 3}
 MaxOcc = 1
 MaxVis = 1
 Depth = 1000000
VIEW View
INVARIANT NonNegative
PROPERTIES UpToDate Local
CHECK_DEADLOCK FALSE
