CONSTANT REFL = FALSE
CONSTANT DIM = 2
CONSTANT DEPTH = 2
CONSTANT HISTORY = TRUE
CONSTANT SMALL = FALSE
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT Emit
