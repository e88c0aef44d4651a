CONSTANT DEVICES = {"cpu"}
CONSTANT PRECISIONS = {32, 64}
CONSTANT POLICY = "like"
CONSTANT DEPTH = 9
CONSTANT HISTORY = TRUE
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT Emit
