CONSTANTS
  MaxLayers = 1
  MaxWires = 2
  Width = 2
  MaxBN = 1
  GateNames = {"add", "mul", "copy", "cipher"}
  Ordered = TRUE
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Agree
