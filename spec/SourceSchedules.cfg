SPECIFICATION Spec
INVARIANT Whole
INVARIANT Conserved
CHECK_DEADLOCK FALSE
