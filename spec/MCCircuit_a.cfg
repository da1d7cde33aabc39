CONSTANTS
  FZero <- FpZero
  FOne <- FpOne
  FAdd <- FpAdd
  FSub <- FpSub
  FMul <- FpMul
  FInv <- FpInv
  FNat <- FpNat
  P = 7
  MaxWires = 2
  Width = 2
  OWidth = 2
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Counting Folded Identity Combines Chunked
