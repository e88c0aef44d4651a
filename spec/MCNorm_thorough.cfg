CONSTANT NG = 3
CONSTANT L = 3
CONSTANT V = {0, 1, 3, 5}
CONSTANT DEPTH = 0
CONSTANT HISTORY = FALSE
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT Normed
INVARIANT Shift
PROPERTY Same
PROPERTY OnlyTraining
