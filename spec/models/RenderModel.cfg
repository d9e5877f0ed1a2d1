SPECIFICATION Spec
CONSTANTS
  MaxSize = 2
INVARIANTS Shape ReadBack
CHECK_DEADLOCK FALSE
