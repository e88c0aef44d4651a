CONSTANT N = 12
CONSTANT GROUPS = {"so2", "so3"}
SPECIFICATION Spec
INVARIANT Invariant
INVARIANT Zero
INVARIANT Triangle
CHECK_DEADLOCK FALSE
