CONSTANTS
  FZero <- FpZero
  FOne <- FpOne
  FAdd <- FpAdd
  FSub <- FpSub
  FMul <- FpMul
  FInv <- FpInv
  FNat <- FpNat
  P = 11
  MaxWires = 2
  Width = 3
  OWidth = 3
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Counting Folded Identity Combines Chunked
