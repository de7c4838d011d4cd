SPECIFICATION CSpec
CONSTANTS Learn = FALSE
          Checks = {}
CHECK_DEADLOCK FALSE
INVARIANTS ItersInRange ShowC
POSTCONDITION Accepted
