CONSTANT KEYS = {1, 2, 3}
CONSTANT MATRIX = {1, 3}
CONSTANT PRE = {1}
CONSTANT SLOTS = {1, 2}
CONSTANT MODELS = {1, 2}
CONSTANT DEPTH = 4
CONSTANT HISTORY = FALSE
SPECIFICATION Spec
INVARIANT Stable
INVARIANT Answers
PROPERTY Quiet
CHECK_DEADLOCK FALSE
