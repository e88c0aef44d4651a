CONSTANT SEEDS = {1, 2}
CONSTANT POLICY = "stream"
CONSTANT DEPTH = 16
CONSTANT HISTORY = TRUE
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT Emit
