CONSTANT NM = 3
CONSTANT NG = 2
CONSTANT NS = 2
CONSTANT NV = 2
CONSTANT SHARE = FALSE
CONSTANT DEPTH = 14
CONSTANT HISTORY = TRUE
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT Emit
