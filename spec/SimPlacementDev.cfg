CONSTANT DEVICES = {"cpu", "acc"}
CONSTANT PRECISIONS = {32}
CONSTANT POLICY = "like"
CONSTANT DEPTH = 9
CONSTANT HISTORY = TRUE
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT Emit
