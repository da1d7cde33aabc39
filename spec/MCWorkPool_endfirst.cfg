CONSTANTS
  NbWorkers = 3
  NbCores = 2
  NbBursts = 1
  Barrier = FALSE
  Closes = TRUE
  Gated = FALSE
  EndFirst = TRUE
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS NoCrash TokensKept AllProcessed
PROPERTIES Returns NothingLeft Refines
