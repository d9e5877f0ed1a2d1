SPECIFICATION TSpec
CONSTANTS
  Regs = {1, 2, 3, 4}
  Vals = {1}
  MaxDim = 3
  MaxAbs = 3
  Families = {}
INVARIANTS TypeOK Follows
PROPERTIES Atomic Frame
CHECK_DEADLOCK FALSE
