CONSTANT N = 4
CONSTANT LEN = 2
CONSTANT DEPTH = 0
CONSTANT HISTORY = FALSE
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT SameRelative
INVARIANT OneDraw
PROPERTY Calls
