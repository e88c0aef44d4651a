CONSTANT MaxL = 3
CONSTANT MaxK = 3
CONSTANT MaxS = 3
CONSTANT MaxP = 1
CONSTANT MaxD = 2
CONSTANT NG = 3
CONSTANT V = {0, 1}
CONSTANT MAPS = TRUE
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT Unordered
INVARIANT Commutes
INVARIANT Within
