SPECIFICATION Spec
CONSTANTS Handles = {1, 2} Its = {1} Elems = {1, 2, 3} Km = 1 Kdir <- MinusOne Ordered = TRUE MaxLen = 3
VIEW View
CHECK_DEADLOCK FALSE
INVARIANTS TypeOK ItersInRange KeysSorted BisectionIsLowerBound SumLaws ExtremeLaws IterLaws
PROPERTIES Immutable Independent FailureAtomic
