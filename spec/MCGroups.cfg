CONSTANT N = 12
CONSTANT GROUPS = {"so2", "o2", "so3"}
CONSTANT DEPTH = 0
CONSTANT HISTORY = FALSE
SPECIFICATION Spec
INVARIANT Closed
INVARIANT Laws
CHECK_DEADLOCK FALSE
