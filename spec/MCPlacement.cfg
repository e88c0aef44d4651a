CONSTANT DEVICES = {"cpu", "acc"}
CONSTANT PRECISIONS = {32, 64}
CONSTANT POLICY = "like"
CONSTANT DEPTH = 0
CONSTANT HISTORY = FALSE
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT Together
INVARIANT Answers
INVARIANT Needs
