CONSTANT MaxL = 7
CONSTANT MaxK = 5
CONSTANT MaxS = 3
CONSTANT MaxD = 3
CONSTANT MaxP = 4
CONSTANT DEPTH = 25
CONSTANT HISTORY = TRUE
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT Emit
