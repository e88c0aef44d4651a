CONSTANT NG = 1
CONSTANT L = 1
CONSTANT V = {0}
CONSTANT DEPTH = 6
CONSTANT HISTORY = TRUE
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT Emit
