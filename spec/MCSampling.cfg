CONSTANT N = 4
CONSTANT M = 2
CONSTANT NQ = 2
CONSTANT DEPTH = 0
CONSTANT HISTORY = FALSE
SPECIFICATION Spec
INVARIANT SameAnswers
INVARIANT AtGrid
CHECK_DEADLOCK FALSE
