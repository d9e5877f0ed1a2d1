SPECIFICATION Spec
CONSTANTS
  Regs = {1, 2}
  Vals = {0, 1}
  MaxDim = 2
  MaxAbs = 2
  Families = {"product"}
VIEW BankView
CONSTRAINT Bounded
INVARIANTS TypeOK ProductLaws InPlaceAgrees
PROPERTIES Atomic Frame
CHECK_DEADLOCK FALSE
