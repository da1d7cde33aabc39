CONSTANTS
  NbWorkers = 5
  NbCores = 3
  NbBursts = 3
  Barrier = TRUE
  Closes = FALSE
  Gated = FALSE
  EndFirst = FALSE
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS NoCrash TokensKept AllProcessed
PROPERTIES Returns NothingLeft Refines
