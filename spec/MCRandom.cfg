CONSTANT SEEDS = {1, 2}
CONSTANT POLICY = "stream"
CONSTANT DEPTH = 4
CONSTANT HISTORY = FALSE
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT IsRepeatable
INVARIANT IsContained
INVARIANT IsMoving
INVARIANT IsFresh
