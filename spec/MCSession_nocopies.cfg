CONSTANTS
  NbUsers = 2
  NbLayers = 2
  Size = 4
  Copies = FALSE
  M = 11
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS  SameAsAlone
