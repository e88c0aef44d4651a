CONSTANT NB = 2
CONSTANT NX = 2
CONSTANT NL = 1
CONSTANT NGR = 1
CONSTANT NP = 1
CONSTANT SIDES = {2}
CONSTANT LEAK = "none"
CONSTANT DEPTH = 0
CONSTANT HISTORY = FALSE
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT Agree
