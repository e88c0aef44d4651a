CONSTANT MaxL = 4
CONSTANT MaxK = 4
CONSTANT MaxS = 4
CONSTANT MaxP = 2
CONSTANT MaxD = 3
CONSTANT NG = 3
CONSTANT V = {0, 1}
CONSTANT MAPS = TRUE
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT Unordered
INVARIANT Commutes
INVARIANT Within
