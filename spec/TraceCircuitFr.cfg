CONSTANTS
  FZero <- FrZero
  FOne <- FrOne
  FAdd <- FrAdd
  FSub <- FrSub
  FMul <- FrMul
  FInv <- FrInv
  FNat <- FrNat

  Ark <- FrArk
  XArr <- FrXArr
  YArr <- FrYArr

SPECIFICATION TSpec
CHECK_DEADLOCK FALSE
