SPECIFICATION Spec
CONSTANT Inflate <- NoInflate
INVARIANT OwnTimes
CHECK_DEADLOCK FALSE
