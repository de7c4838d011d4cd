SPECIFICATION Spec
CONSTANTS LC = 2 IC = 4 MaxN = 6 MaxD = 9 Track = FALSE
VIEW View
CHECK_DEADLOCK FALSE
ACTION_CONSTRAINT Unshared
INVARIANTS Unique Edits Advances
