SPECIFICATION Spec
CONSTANTS
  Sizes = {4}
  Vals <- FourVals
  Break = FALSE
INVARIANTS Factored Verdict Certificates PositiveSoFar
CHECK_DEADLOCK FALSE
