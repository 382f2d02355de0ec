SPECIFICATION Spec
INVARIANT OneRequest
INVARIANT Surfaces
PROPERTY Ends
CHECK_DEADLOCK FALSE
