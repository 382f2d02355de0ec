SPECIFICATION Spec
INVARIANT LastWins
INVARIANT Folded
INVARIANT Implied
CHECK_DEADLOCK FALSE
