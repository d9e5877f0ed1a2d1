SPECIFICATION Spec
CONSTANTS
  Regs = {1}
  Vals = {0, 1}
  MaxDim = 3
  MaxAbs = 3
  Families = {"pick"}
VIEW BankView
CONSTRAINT Bounded
INVARIANTS TypeOK PickLaws
PROPERTIES Atomic Frame
CHECK_DEADLOCK FALSE
