CONSTANTS
  NbWorkers = 3
  NbCores = 5
  NbBursts = 1
  Barrier = FALSE
  Closes = TRUE
  Gated = FALSE
  EndFirst = FALSE
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS NoCrash TokensKept AllProcessed
PROPERTIES Returns NothingLeft Refines
