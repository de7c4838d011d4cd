SPECIFICATION TSpec
CHECK_DEADLOCK FALSE
INVARIANT Show
POSTCONDITION Accepted
