CONSTANT NO = 4
CONSTANT NI = 3
CONSTANT DEPTH = 9
CONSTANT HISTORY = TRUE
SPECIFICATION Spec
INVARIANT Emit
CHECK_DEADLOCK FALSE
