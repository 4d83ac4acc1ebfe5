SPECIFICATION Spec
CONSTANTS Ids = {0, 1, 2}
 Sizes = {2}
 Exits = {1, 3}
 Outs = 1
 Resolutions = {2, 5}
 MaxOcc = 2
 Depth = 1000000
VIEW View
INVARIANTS Valid
PROPERTY Local
CHECK_DEADLOCK FALSE
