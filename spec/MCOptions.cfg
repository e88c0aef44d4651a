CONSTANT REFL = TRUE
CONSTANT DIM = 2
CONSTANT DEPTH = 0
CONSTANT HISTORY = FALSE
CONSTANT SMALL = TRUE
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT Works
INVARIANT GridWins
INVARIANT Defaults
PROPERTY About
