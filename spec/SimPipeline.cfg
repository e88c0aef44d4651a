CONSTANT MaxSp = 4
CONSTANT MaxK = 3
CONSTANT Chans = {1, 2}
CONSTANT DEPTH = 10
CONSTANT HISTORY = TRUE
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT Emit
