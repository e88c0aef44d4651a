CONSTANT NPTS = 3
CONSTANT NDIM = 2
CONSTANT RANGE = 2
CONSTANT DEPTH = 7
CONSTANT HISTORY = TRUE
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT Emit
