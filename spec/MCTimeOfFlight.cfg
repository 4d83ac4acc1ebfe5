SPECIFICATION Spec
CONSTANTS Charges = {1, 2}
 Dwells = {1, 2}
 Horizon = 3
INVARIANTS OnePerSite InTheLattice InTimeOrder Conserved Balanced
PROPERTY ClockAdvances
CHECK_DEADLOCK FALSE
