CONSTANT MaxSp = 7
CONSTANT MaxK = 3
CONSTANT Chans = {1, 2}
CONSTANT DEPTH = 5
CONSTANT HISTORY = FALSE
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT Sizes
INVARIANT InStep
INVARIANT GoesOn
INVARIANT Alike
PROPERTY Keeps
