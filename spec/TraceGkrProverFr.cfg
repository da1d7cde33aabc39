CONSTANTS
  FZero <- FrZero
  FOne <- FrOne
  FAdd <- FrAdd
  FSub <- FrSub
  FMul <- FrMul
  FInv <- FrInv
  FNat <- FrNat
  NbLayers <- TrNbLayers
  LayerOf <- TrLayerOf
  BNOf <- TrBNOf
  Challenge <- FrMimcHash
SPECIFICATION TSpec
CHECK_DEADLOCK FALSE
