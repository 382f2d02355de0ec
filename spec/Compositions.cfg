SPECIFICATION Spec
INVARIANT Invariant
CHECK_DEADLOCK FALSE
