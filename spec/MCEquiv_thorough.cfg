CONSTANT L = 3
CONSTANT Reflections = TRUE
CONSTANT NI = 2
CONSTANT NO = 4
CONSTANT DEPTH = 0
CONSTANT HISTORY = FALSE
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT Equivariant
INVARIANT Pooled
