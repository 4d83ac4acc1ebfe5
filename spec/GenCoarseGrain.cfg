SPECIFICATION Spec
CONSTANTS Walkers = {1, 2, 3}
 Nets = {1, 2, 3, 4, 5, 6, 7}
 Ts = {8, 40, 4000}
 Ratios = {1, 4, 16}
 Mins = {0, 1, 3}
 Depth = 80
 MaxThr = 100000
CHECK_DEADLOCK FALSE
