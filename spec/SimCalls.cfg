CONSTANT NB = 3
CONSTANT NX = 3
CONSTANT NL = 2
CONSTANT NGR = 2
CONSTANT NP = 1
CONSTANT SIDES = {1, 2}
CONSTANT LEAK = "none"
CONSTANT DEPTH = 14
CONSTANT HISTORY = TRUE
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT Emit
