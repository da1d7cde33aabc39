CONSTANTS
  FZero <- FpZero
  FOne <- FpOne
  FAdd <- FpAdd
  FSub <- FpSub
  FMul <- FpMul
  FInv <- FpInv
  FNat <- FpNat
  P = 11
  Ark <- MCArk
  XArr <- MCX
  YArr <- MCY
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Holds IsUpdate
