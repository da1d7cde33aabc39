CONSTANTS
  FZero <- FpZero
  FOne <- FpOne
  FAdd <- FpAdd
  FSub <- FpSub
  FMul <- FpMul
  FInv <- FpInv
  FNat <- FpNat
  P = 5
  LogN = 1
  LogG = 0
  Vals <- Trits
  GateSet <- Gates1
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS RunningClaim RevealCombines NeverRejected AgreeOnClaim AcceptedIsTrue
