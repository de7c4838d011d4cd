SPECIFICATION Spec
CONSTANTS Handles = {1, 2} Its = {1} Elems = {10, 11, 20} Km = 10 Kdir = 1 Ordered = TRUE MaxLen = 2
VIEW View
CHECK_DEADLOCK FALSE
INVARIANTS TypeOK ItersInRange KeysSorted BisectionIsLowerBound SumLaws ExtremeLaws IterLaws
PROPERTIES Immutable Independent FailureAtomic
