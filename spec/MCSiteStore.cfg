SPECIFICATION Spec
CONSTANTS Ids = {1, 2, 3}
 Neighs = {1}
 Vals = {3}
 Clusters = {0, 2}
 MaxOcc = 1
 MaxVis = 1
 Depth = 1000000
VIEW View
INVARIANTS SmallestIsMember NonNegative
PROPERTY Grows
CHECK_DEADLOCK FALSE
