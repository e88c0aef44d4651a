CONSTANT L = 3
CONSTANT Reflections = FALSE
CONSTANT NI = 1
CONSTANT NO = 2
CONSTANT DEPTH = 0
CONSTANT HISTORY = FALSE
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT Equivariant
INVARIANT Pooled
