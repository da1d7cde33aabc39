CONSTANTS
  FZero <- FpZero
  FOne <- FpOne
  FAdd <- FpAdd
  FSub <- FpSub
  FMul <- FpMul
  FInv <- FpInv
  FNat <- FpNat
  P = 5
  LogN = 2
  LogG = 0
  Vals <- Bits
  GateSet <- Gates2
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS RunningClaim RevealCombines NeverRejected AgreeOnClaim AcceptedIsTrue
