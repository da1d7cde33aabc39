CONSTANTS
  NbWorkers = 4
  NbCores = 2
  NbBursts = 2
  Barrier = TRUE
  Closes = FALSE
  Gated = FALSE
  EndFirst = FALSE
SPECIFICATION SSpec
CHECK_DEADLOCK FALSE
