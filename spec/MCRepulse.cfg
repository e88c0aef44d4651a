CONSTANT NPTS = 3
CONSTANT NDIM = 1
CONSTANT RANGE = 3
CONSTANT DEPTH = 3
CONSTANT HISTORY = FALSE
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT Centred
INVARIANT NoCloser
INVARIANT Untouched
INVARIANT Holds
INVARIANT ZeroSteps
INVARIANT Orderless
INVARIANT Composes
