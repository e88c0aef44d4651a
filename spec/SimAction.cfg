CONSTANT N = 4
CONSTANT GROUPS = {"so2", "o2", "so3", "o3"}
CONSTANT DEPTH = 8
CONSTANT HISTORY = TRUE
CONSTANT COORD = {1}
SPECIFICATION Spec
INVARIANT Homomorphism
INVARIANT Emit
CHECK_DEADLOCK FALSE
