SPECIFICATION Spec
INVARIANT Function
CHECK_DEADLOCK FALSE
