SPECIFICATION Spec
CONSTANTS
  Regs = {1}
  Vals = {0, 1}
  MaxDim = 2
  MaxAbs = 3
  Families = {"build"}
VIEW BankView
CONSTRAINT Bounded
INVARIANTS TypeOK TransposeLaws CutLaws
PROPERTIES Atomic Frame
CHECK_DEADLOCK FALSE
