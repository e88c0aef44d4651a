CONSTANT MaxL = 3
CONSTANT MaxK = 2
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT Forward
INVARIANT Exact
INVARIANT Linear
