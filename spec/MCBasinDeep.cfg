SPECIFICATION Spec
CONSTANTS Sites = {1, 2, 3, 4}
 Top = 1
 Depth = 0
INVARIANTS OrderDoesNotMatter Sound LimitMonotone
CHECK_DEADLOCK FALSE
