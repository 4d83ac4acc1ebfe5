SPECIFICATION Spec
CONSTANTS Ids = {0, 1, 2, 7}
 Neighs = {1, 4, 9}
 Vals = {1, 3, 50}
 Clusters = {0, 2, 5}
 MaxOcc = 3
 MaxVis = 9
 Depth = 50
CHECK_DEADLOCK FALSE
