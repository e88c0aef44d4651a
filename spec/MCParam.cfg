CONSTANT N = 4
CONSTANT DEPTH = 0
CONSTANT HISTORY = FALSE
SPECIFICATION Spec
INVARIANT SameRotation
INVARIANT Total
CHECK_DEADLOCK FALSE
