SPECIFICATION Spec
CONSTANTS AllTerms = {1, 2, 3}
          AllDocs = {1, 2, 3}
          MaxTerms = 3
INVARIANT Represents
CHECK_DEADLOCK FALSE
