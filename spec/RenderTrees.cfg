SPECIFICATION Spec
INVARIANT Complete
INVARIANT SameContent
INVARIANT Emit
CHECK_DEADLOCK FALSE
