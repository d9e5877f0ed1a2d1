SPECIFICATION Spec
CONSTANTS
  Regs = {1, 2}
  Vals = {0, 1}
  MaxDim = 2
  MaxAbs = 3
  Families = {"join"}
VIEW BankView
CONSTRAINT Bounded
INVARIANTS TypeOK JoinLaws
PROPERTIES Atomic Frame
CHECK_DEADLOCK FALSE
