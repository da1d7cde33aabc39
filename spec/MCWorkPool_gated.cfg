CONSTANTS
  NbWorkers = 4
  NbCores = 2
  NbBursts = 1
  Barrier = FALSE
  Closes = FALSE
  Gated = TRUE
  EndFirst = FALSE
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS NoCrash TokensKept AllProcessed
PROPERTIES Returns NothingLeft Refines
