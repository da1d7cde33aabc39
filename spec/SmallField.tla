------------------------------- MODULE SmallField -------------------------------
(***************************************************************************)
(* A prime field with P elements, for exhaustive checking.                  *)
(***************************************************************************)
EXTENDS Integers
CONSTANT P
Fp == 0..(P - 1)
FpZero == 0
FpOne == 1
FpAdd(a, b) == (a + b) % P
FpSub(a, b) == (a - b) % P
FpMul(a, b) == (a * b) % P
FpNat(n) == n % P
FpInv(a) == CHOOSE b \in Fp : (a * b) % P = 1
================================================================================
