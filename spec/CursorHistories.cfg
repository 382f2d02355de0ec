SPECIFICATION Spec
INVARIANT Inside
CHECK_DEADLOCK FALSE
