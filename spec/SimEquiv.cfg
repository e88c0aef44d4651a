CONSTANT L = 3
CONSTANT Reflections = FALSE
CONSTANT NI = 3
CONSTANT NO = 4
CONSTANT DEPTH = 7
CONSTANT HISTORY = TRUE
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT Emit
