CONSTANTS
  FZero <- FpZero
  FOne <- FpOne
  FAdd <- FpAdd
  FSub <- FpSub
  FMul <- FpMul
  FInv <- FpInv
  FNat <- FpNat
  P = 5
  Whole <- Whole4
  NbChunks = 4
  NbCores = 1
  NbPoints = 4
  Coins = {2}
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS AtMostCores Barrier InStep Refines PartsOfWhole DoneIsQuiet
PROPERTIES Terminates RefinesSync
