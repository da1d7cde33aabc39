CONSTANTS
  FZero <- FpZero
  FOne <- FpOne
  FAdd <- FpAdd
  FSub <- FpSub
  FMul <- FpMul
  FInv <- FpInv
  FNat <- FpNat
  P = 3
  Names = {"a", "b", "c"}
  MaxLevel = 6
  MaxArrays = 4
  Init0 <- Tab4
  Scalars = {0, 2}
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Refines Separate EvalIsMLE
CONSTRAINT Short
