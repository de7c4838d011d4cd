SPECIFICATION Spec
CONSTANTS Handles = {1, 2} Its = {1} Elems = {1, 2} Km = 1 Kdir = 1 Ordered = FALSE MaxLen = 3
VIEW View
CHECK_DEADLOCK FALSE
INVARIANTS TypeOK ItersInRange KeysSorted BisectionIsLowerBound SumLaws ExtremeLaws IterLaws
PROPERTIES Immutable Independent FailureAtomic
