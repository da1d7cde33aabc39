CONSTANTS
  MaxN = 9
  MaxCores = 4
  MinChunk = 2
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Covers AtMostCores OnceEach AllDone
PROPERTY Terminates
