CONSTANTS
  NbWorkers = 4
  NbCores = 3
  NbBursts = 3
  Barrier = TRUE
  Closes = FALSE
  Gated = FALSE
  EndFirst = FALSE
SPECIFICATION SSpec
CHECK_DEADLOCK FALSE
