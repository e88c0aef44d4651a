CONSTANT NO = 2
CONSTANT NI = 3
CONSTANT DEPTH = 0
CONSTANT HISTORY = FALSE
SPECIFICATION Spec
INVARIANT Follows
CHECK_DEADLOCK FALSE
