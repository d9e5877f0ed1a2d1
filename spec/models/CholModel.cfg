SPECIFICATION Spec
CONSTANTS
  Sizes = {1, 2, 3}
  Vals <- ThreeVals
  Break = TRUE
INVARIANTS Factored Verdict Certificates PositiveSoFar
CHECK_DEADLOCK FALSE
