CONSTANT N = 4
CONSTANT GROUPS = {"so2", "o2", "so3", "o3"}
CONSTANT DEPTH = 0
CONSTANT HISTORY = FALSE
CONSTANT COORD = {-3, 0, 1, 2}
SPECIFICATION Spec
INVARIANT Homomorphism
INVARIANT Undone
INVARIANT Isometry
INVARIANT Orientation
CHECK_DEADLOCK FALSE
