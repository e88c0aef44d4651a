CONSTANT MaxL = 3
CONSTANT MaxK = 3
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT Forward
INVARIANT Exact
INVARIANT Linear
