CONSTANTS
  NbWorkers = 4
  NbCores = 1
  NbBursts = 2
  Barrier = TRUE
  Closes = FALSE
  Gated = FALSE
  EndFirst = FALSE
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS NoCrash TokensKept AllProcessed
PROPERTIES Returns NothingLeft Refines
