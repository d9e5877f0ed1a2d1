SPECIFICATION Spec
INVARIANT Rendered
CHECK_DEADLOCK FALSE
