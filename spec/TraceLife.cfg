SPECIFICATION TSpec
CHECK_DEADLOCK FALSE
INVARIANTS Consistent Show
POSTCONDITION Accepted
