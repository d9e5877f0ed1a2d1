SPECIFICATION Spec
CONSTANTS
  Shapes <- QuickShapes
  Vals <- Signs
INVARIANTS Factored SmallMultipliers Permutes Determinant Solves SolvesTall
CHECK_DEADLOCK FALSE
