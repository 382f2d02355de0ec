SPECIFICATION Spec
INVARIANT Accepted
INVARIANT Inside
CHECK_DEADLOCK FALSE
