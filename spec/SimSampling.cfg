CONSTANT N = 12
CONSTANT M = 5
CONSTANT NQ = 4
CONSTANT DEPTH = 10
CONSTANT HISTORY = TRUE
SPECIFICATION Spec
INVARIANT Emit
CHECK_DEADLOCK FALSE
