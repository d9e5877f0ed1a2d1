SPECIFICATION Spec
CONSTANTS
  Regs = {1, 2}
  Vals = {0, 1}
  MaxDim = 2
  MaxAbs = 1
  Families = {"arith", "unary"}
VIEW BankView
CONSTRAINT Bounded
INVARIANTS TypeOK AddLaws InPlaceAgrees
PROPERTIES Atomic Frame
CHECK_DEADLOCK FALSE
