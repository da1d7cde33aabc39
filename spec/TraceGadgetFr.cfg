CONSTANTS
  FZero <- FrZero
  FOne <- FrOne
  FAdd <- FrAdd
  FSub <- FrSub
  FMul <- FrMul
  FInv <- FrInv
  FNat <- FrNat
  Challenge <- FrMimcHash
SPECIFICATION TSpec
CHECK_DEADLOCK FALSE
