CONSTANT P = 3
CONSTANT HISTORY = TRUE
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT Emit
