CONSTANTS
  FZero <- FpZero
  FOne <- FpOne
  FAdd <- FpAdd
  FSub <- FpSub
  FMul <- FpMul
  FInv <- FpInv
  FNat <- FpNat
  P = 3
  N = 1
  Total = 3
  Checked = TRUE
  NbLayers <- NoLayers
  LayerOf <- NoLayer
  BNOf <- BN
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS NoCrash Vouches Complete
