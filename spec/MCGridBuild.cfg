CONSTANT N = 24
CONSTANT MAXN = 24
SPECIFICATION Spec
INVARIANT NoneTwice
INVARIANT InOrder
INVARIANT InRange
INVARIANT Counts
INVARIANT Spread
INVARIANT StartsAtIdentity
CHECK_DEADLOCK FALSE
