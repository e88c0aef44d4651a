CONSTANT MaxN2 = 7
CONSTANT MaxN3 = 5
CONSTANT DEPTH = 0
CONSTANT HISTORY = FALSE
SPECIFICATION Spec
INVARIANT Symmetric
INVARIANT Covers
INVARIANT Centred
INVARIANT MaskShape
INVARIANT MaskBall
CHECK_DEADLOCK FALSE
