SPECIFICATION Spec
CONSTANTS
  Regs = {1, 2}
  Vals = {0}
  MaxDim = 3
  MaxAbs = 0
  Families = {"arith", "product", "join"}
VIEW BankView
CONSTRAINT Bounded
INVARIANTS TypeOK InPlaceAgrees
PROPERTIES Atomic Frame
CHECK_DEADLOCK FALSE
