SPECIFICATION Spec
CONSTANTS Ids = {0, 1, 2, 7}
 Sizes = {2, 3, 4}
 Exits = {1, 3, 7}
 Outs = 3
 Resolutions = {2, 5, 64}
 MaxOcc = 2
 Depth = 40
CHECK_DEADLOCK FALSE
