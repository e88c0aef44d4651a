CONSTANT N = 4
CONSTANT LEN = 2
CONSTANT DEPTH = 9
CONSTANT HISTORY = TRUE
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT Emit
