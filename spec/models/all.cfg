SPECIFICATION Spec
CONSTANTS
  Regs = {1, 2}
  Vals = {0, 1}
  MaxDim = 2
  MaxAbs = 1
  Families = {"build", "access", "transpose", "cut", "pick", "unary", "join", "arith", "product", "compare"}
VIEW BankView
CONSTRAINT Bounded
INVARIANTS TypeOK InPlaceAgrees
PROPERTIES Atomic Frame
CHECK_DEADLOCK FALSE
