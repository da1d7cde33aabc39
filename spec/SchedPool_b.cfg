CONSTANTS
  NbWorkers = 2
  NbCores = 2
  NbBursts = 3
  Barrier = TRUE
  Closes = FALSE
  Gated = FALSE
  EndFirst = FALSE
SPECIFICATION SSpec
CHECK_DEADLOCK FALSE
