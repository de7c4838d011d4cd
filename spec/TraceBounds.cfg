SPECIFICATION TSpec
CONSTANTS Learn = FALSE  Checks = {"depth", "cost"}
CHECK_DEADLOCK FALSE
POSTCONDITION Accepted
INVARIANTS ItersInRange Show
