SPECIFICATION TSpec
CONSTANT None = None
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
