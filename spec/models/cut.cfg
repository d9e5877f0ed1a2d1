SPECIFICATION Spec
CONSTANTS
  Regs = {1}
  Vals = {0, 1}
  MaxDim = 3
  MaxAbs = 3
  Families = {"cut"}
VIEW BankView
CONSTRAINT Bounded
INVARIANTS TypeOK CutLaws
PROPERTIES Atomic Frame
CHECK_DEADLOCK FALSE
