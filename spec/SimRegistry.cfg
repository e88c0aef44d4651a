CONSTANT KEYS = {1, 2, 3, 4, 5, 6}
CONSTANT MATRIX = {1, 2, 3}
CONSTANT PRE = {1, 2, 4}
CONSTANT SLOTS = {1, 2, 3}
CONSTANT MODELS = {1, 2}
CONSTANT DEPTH = 24
CONSTANT HISTORY = TRUE
SPECIFICATION Spec
INVARIANT Stable
INVARIANT Emit
CHECK_DEADLOCK FALSE
