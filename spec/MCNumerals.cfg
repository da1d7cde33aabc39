CONSTANTS
  FZero <- FpZero
  FOne <- FpOne
  FAdd <- FpAdd
  FSub <- FpSub
  FMul <- FpMul
  FInv <- FpInv
  FNat <- FpNat
  P = 23
  Base = 3
  PDigits <- P23
  N = 300
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Measured Denotes Ordered
