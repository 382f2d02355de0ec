SPECIFICATION Spec
INVARIANT Agree
INVARIANT Once
PROPERTY Ends
CHECK_DEADLOCK FALSE
