SPECIFICATION TSpec
CONSTANTS Learn = FALSE
          Checks = {"over"}
CHECK_DEADLOCK FALSE
INVARIANTS ItersInRange Show
POSTCONDITION Accepted
