------------------------------- MODULE FrSelfTest -------------------------------
(***************************************************************************)
(* The trace specifications run with the operators of Fr and FrMimc          *)
(* overridden in Java.  This module compares the override with the           *)
(* definitions: FrPure is a copy of Fr.tla, made by run.py, with its         *)
(* operators called Pr... so that they are not overridden.  The permutation  *)
(* of FrMimc is compared with the one of Sponge.                             *)
(***************************************************************************)
EXTENDS Sponge, FrMimc, FrPure

\* values at the edges of the limbs and of the field, and some in between
Seeds == << FrZero, FrOne, FrNat(2), FrNat(8191), FrNat(8192), FrNat(67108863), FrNat(2147483647),
            [FrP EXCEPT ![1] = 0],                                  \* p - 1
            [i \in 1..20 |-> IF i = 20 THEN 96 ELSE 0],
            [i \in 1..20 |-> IF i = 20 THEN 95 ELSE 8191],
            [i \in 1..20 |-> (i * 2741 + 7) % (IF i = 20 THEN 96 ELSE 8192)],
            [i \in 1..20 |-> (i * i * 523 + 4099) % (IF i = 20 THEN 96 ELSE 8192)] >>

VARIABLES i, j
Init == i \in DOMAIN Seeds /\ j = 0
Next == j = 0 /\ j' \in DOMAIN Seeds /\ UNCHANGED i
Spec == Init /\ [][Next]_<<i, j>>

Agree == j # 0 => LET a == Seeds[i]
             b == Seeds[j]
         IN  /\ FrAdd(a, b) = PrAdd(a, b)
             /\ FrSub(a, b) = PrSub(a, b)
             /\ FrAdd(FrSub(a, b), b) = a
             /\ (i * 5 + j * 3) % 7 = 0 => FrMul(a, b) = PrMul(a, b)
             /\ (i = j /\ a # FrZero) => FrMul(a, FrInv(a)) = FrOne
             /\ \A n \in {0, 1, 8191, 8192, 65537 + i, 2147483647} : FrNat(n) = PrNat(n)
             /\ i + j = 13 => /\ FrMimcPerm(a, b, ArkConst) = MimcPerm(a, b)
                              /\ FrMimcHash(<<a, b>>) = MimcHash(<<a, b>>)
================================================================================
