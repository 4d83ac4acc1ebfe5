SPECIFICATION Spec
CONSTANTS Nets = {1, 2, 3}
 NSlots = 3
 Walkers = {1, 2, 7}
 MaxVis = 60
 Resolutions = {20, 50, 200, 35}
 Depth = 60
CHECK_DEADLOCK FALSE
