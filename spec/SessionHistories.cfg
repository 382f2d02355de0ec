SPECIFICATION Spec
CONSTANT Inflate <- NoInflate
INVARIANT LastSinceData
INVARIANT Register
CHECK_DEADLOCK FALSE
