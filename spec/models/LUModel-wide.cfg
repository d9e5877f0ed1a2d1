SPECIFICATION Spec
CONSTANTS
  Shapes <- Pairs
  Vals <- Threes
INVARIANTS Factored SmallMultipliers Permutes Determinant Solves SolvesTall
CHECK_DEADLOCK FALSE
