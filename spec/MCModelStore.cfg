CONSTANT NM = 2
CONSTANT NG = 1
CONSTANT NS = 1
CONSTANT NV = 2
CONSTANT SHARE = FALSE
CONSTANT DEPTH = 0
CONSTANT HISTORY = FALSE
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT Isolated
INVARIANT Unshared
PROPERTY SavedKept
