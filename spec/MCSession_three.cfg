CONSTANTS
  NbUsers = 3
  NbLayers = 2
  Size = 4
  Copies = TRUE
  M = 11
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Untouched SameAsAlone
