CONSTANT P = 5
CONSTANT HISTORY = FALSE
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT OneResult
INVARIANT LegalCalls
INVARIANT OnlyNeeded
