SPECIFICATION Spec
CONSTANTS Nets = {1, 2, 3}
 NSlots = 2
 Walkers = {1}
 MaxVis = 1
 Resolutions = {20}
 Depth = 1000000
VIEW View
INVARIANTS Disjoint BuiltInside OneWalkerEach Stationary ExitsSum
PROPERTY Together
CHECK_DEADLOCK FALSE
