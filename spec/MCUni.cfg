CONSTANTS
  FZero <- FpZero
  FOne <- FpOne
  FAdd <- FpAdd
  FSub <- FpSub
  FMul <- FpMul
  FInv <- FpInv
  FNat <- FpNat
  P = 7
  N = 4
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Correct Evaluation Unique
