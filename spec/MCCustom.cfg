CONSTANT P = 3
CONSTANT HISTORY = FALSE
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT OneResult
INVARIANT LegalCalls
INVARIANT OnlyNeeded
