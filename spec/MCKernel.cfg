CONSTANT NO = 2
CONSTANT NI = 2
CONSTANT DEPTH = 0
CONSTANT HISTORY = FALSE
SPECIFICATION Spec
INVARIANT Follows
CHECK_DEADLOCK FALSE
