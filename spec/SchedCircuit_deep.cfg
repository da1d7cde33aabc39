CONSTANTS
  MaxLayers = 3
  MaxWires = 4
  Width = 4
  MaxBN = 3
  GateNames = {"add", "mul", "copy", "cipher", "cipher0"}
  Ordered = FALSE
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Agree
