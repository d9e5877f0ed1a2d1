SPECIFICATION GSpec
INVARIANT Outcome
CHECK_DEADLOCK FALSE
