CONSTANTS
  FZero <- FpZero
  FOne <- FpOne
  FAdd <- FpAdd
  FSub <- FpSub
  FMul <- FpMul
  FInv <- FpInv
  FNat <- FpNat
  P = 11
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS BoundsDegree Distinguishes
