SPECIFICATION Spec
INVARIANT Emit
INVARIANT Found
INVARIANT Kept
CHECK_DEADLOCK FALSE
