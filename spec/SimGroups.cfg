CONSTANT N = 24
CONSTANT GROUPS = {"so2", "o2", "so3", "o3"}
CONSTANT DEPTH = 14
CONSTANT HISTORY = TRUE
SPECIFICATION Spec
INVARIANT Emit
INVARIANT Laws
CHECK_DEADLOCK FALSE
