SPECIFICATION TSpec
CONSTANTS Learn = TRUE
          Checks = {}
CHECK_DEADLOCK FALSE
INVARIANTS ItersInRange Show
POSTCONDITION Accepted
