SPECIFICATION Spec
CONSTANTS
  Shapes <- SmallShapes
  Vals <- Signs
INVARIANTS Factored SmallMultipliers Permutes Determinant Solves SolvesTall
CHECK_DEADLOCK FALSE
