CONSTANTS
  FZero <- FpZero
  FOne <- FpOne
  FAdd <- FpAdd
  FSub <- FpSub
  FMul <- FpMul
  FInv <- FpInv
  FNat <- FpNat
  P = 5
  MaxWires = 3
  Width = 2
  OWidth = 2
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Counting Folded Identity Combines Chunked
