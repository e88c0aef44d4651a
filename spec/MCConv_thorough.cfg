CONSTANT MaxL = 7
CONSTANT MaxK = 5
CONSTANT MaxS = 3
CONSTANT MaxD = 3
CONSTANT MaxP = 4
CONSTANT DEPTH = 0
CONSTANT HISTORY = FALSE
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT Same
INVARIANT InRange
INVARIANT Maximal
INVARIANT Steps
INVARIANT Copies
INVARIANT Flips
INVARIANT Axes
