SPECIFICATION Spec
CONSTANTS
  Regs = {1}
  Vals = {0, 1, 2}
  MaxDim = 2
  MaxAbs = 3
  Families = {"build", "access"}
VIEW BankView
CONSTRAINT Bounded
INVARIANTS TypeOK TransposeLaws
PROPERTIES Atomic Frame
CHECK_DEADLOCK FALSE
