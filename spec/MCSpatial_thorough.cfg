CONSTANT MaxN2 = 15
CONSTANT MaxN3 = 7
CONSTANT DEPTH = 0
CONSTANT HISTORY = FALSE
SPECIFICATION Spec
INVARIANT Symmetric
INVARIANT Covers
INVARIANT Centred
INVARIANT MaskShape
INVARIANT MaskBall
CHECK_DEADLOCK FALSE
