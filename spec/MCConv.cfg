CONSTANT MaxL = 4
CONSTANT MaxK = 3
CONSTANT MaxS = 2
CONSTANT MaxD = 2
CONSTANT MaxP = 3
CONSTANT DEPTH = 0
CONSTANT HISTORY = FALSE
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT Same
INVARIANT InRange
INVARIANT Maximal
INVARIANT Steps
INVARIANT Copies
INVARIANT Flips
INVARIANT Axes
