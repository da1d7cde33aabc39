CONSTANTS
  FZero <- FrZero
  FOne <- FrOne
  FAdd <- FrAdd
  FSub <- FrSub
  FMul <- FrMul
  FInv <- FrInv
  FNat <- FrNat
  Base = 10
  PDigits <- FrDigits
SPECIFICATION TSpec
CHECK_DEADLOCK FALSE
