SPECIFICATION Spec
INVARIANTS Emit Independent Options
CHECK_DEADLOCK FALSE
