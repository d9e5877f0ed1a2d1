SPECIFICATION Spec
CONSTANTS
  Shapes <- DeepShapes
  Vals <- Bits
INVARIANTS Factored SmallMultipliers Permutes Determinant Solves SolvesTall
CHECK_DEADLOCK FALSE
