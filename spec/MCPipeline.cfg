CONSTANT MaxSp = 4
CONSTANT MaxK = 3
CONSTANT Chans = {1, 2}
CONSTANT DEPTH = 3
CONSTANT HISTORY = FALSE
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT Sizes
INVARIANT InStep
INVARIANT GoesOn
INVARIANT Alike
PROPERTY Keeps
