SPECIFICATION TSpec
CONSTANTS Learn = FALSE
          Checks = {}
CHECK_DEADLOCK FALSE
INVARIANTS ItersInRange Show
POSTCONDITION Accepted
