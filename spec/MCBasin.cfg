SPECIFICATION Spec
CONSTANTS Sites = {1, 2, 3}
 Top = 3
 Depth = 0
INVARIANTS OrderDoesNotMatter Sound LimitMonotone
CHECK_DEADLOCK FALSE
