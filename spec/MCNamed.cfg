SPECIFICATION Spec
INVARIANT Finite
POSTCONDITION AllReached
CHECK_DEADLOCK FALSE
