CONSTANTS
  FZero <- FpZero
  FOne <- FpOne
  FAdd <- FpAdd
  FSub <- FpSub
  FMul <- FpMul
  FInv <- FpInv
  FNat <- FpNat
  P = 5
  Circuits <- Circ2
  BN = 0
  NbLayers <- MCNbLayers
  LayerOf <- MCLayerOf
  BNOf <- MCBNOf
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS GoesOn SumsUp Reveals SameClaim
