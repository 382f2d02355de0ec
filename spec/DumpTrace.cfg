SPECIFICATION Spec
CONSTANT Inflate <- InflateImpl
INVARIANT Accepted
INVARIANT Inside
PROPERTY Forward
CHECK_DEADLOCK FALSE
