CONSTANT MaxN2 = 11
CONSTANT MaxN3 = 9
CONSTANT DEPTH = 6
CONSTANT HISTORY = TRUE
SPECIFICATION Spec
INVARIANT Emit
CHECK_DEADLOCK FALSE
