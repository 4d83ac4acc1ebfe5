SPECIFICATION Spec
CONSTANTS Sites = {1, 2, 3}
 Neighs = {1, 2, 4, 9}
 Cells = {1, 2, 3, 4, 5}
 Vals = {1, 2, 5, 60}
 MaxOcc = 3
 MaxVis = 9
 Depth = 40
CHECK_DEADLOCK FALSE
