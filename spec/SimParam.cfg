CONSTANT N = 4
CONSTANT DEPTH = 9
CONSTANT HISTORY = TRUE
SPECIFICATION Spec
INVARIANT SameRotation
INVARIANT Emit
CHECK_DEADLOCK FALSE
