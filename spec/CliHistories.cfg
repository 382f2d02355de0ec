SPECIFICATION Spec
INVARIANT Emit
INVARIANT Rejected
INVARIANT LayoutFree
INVARIANT Unwritable
INVARIANT ArmorRestricts
CHECK_DEADLOCK FALSE
