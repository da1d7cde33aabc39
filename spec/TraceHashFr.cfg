CONSTANTS
  FZero <- FrZero
  FOne <- FrOne
  FAdd <- FrAdd
  FSub <- FrSub
  FMul <- FrMul
  FInv <- FrInv
  FNat <- FrNat

  Ark <- FrArk
  XArr <- FrXArr
  YArr <- FrYArr
  Challenge <- FrMimcHash
SPECIFICATION TSpec
CHECK_DEADLOCK FALSE
