---------------------------------- MODULE Fr ----------------------------------
(***************************************************************************)
(* The scalar field of BN256 (bn256/fr), the field all of gkr-mimc computes *)
(* in, written out in TLA+.                                                 *)
(*                                                                          *)
(* TLC integers are 32-bit, so an element is a little-endian sequence of 20 *)
(* limbs of 13 bits (20 * 8191^2 < 2^31: a schoolbook product column never  *)
(* overflows).  Representatives are canonical, i.e. < FrP, so that TLA+     *)
(* equality is field equality.                                              *)
(*                                                                          *)
(* The definitions below are complete and are evaluated as they stand by    *)
(* FrSelfTest.tla.  For speed, TLC otherwise runs with a module override    *)
(* (java/FrOverrides.java, java.math.BigInteger); the self test checks that *)
(* the override and these definitions give the same results.                *)
(***************************************************************************)
EXTENDS Integers, Sequences

FrNbLimbs == 20
FrBase    == 8192

\* 21888242871839275222246405745257275088548364400416034343698204186575808495617
FrP == <<1, 0, 1276, 1003, 5182, 6216, 1765, 2319, 5096, 2369,
         5655, 770, 7016, 2082, 1761, 5125, 305, 5015, 6419, 96>>

FrZero == [i \in 1..FrNbLimbs |-> 0]
FrOne  == [i \in 1..FrNbLimbs |-> IF i = 1 THEN 1 ELSE 0]

FrIsElement(a) ==
    /\ DOMAIN a = 1..FrNbLimbs
    /\ \A i \in 1..FrNbLimbs : a[i] \in 0..(FrBase - 1)

(***************************************************************************)
(* Limb arithmetic.                                                         *)
(***************************************************************************)
RECURSIVE LimbsLess(_, _, _)
\* a < b, looking at limbs k, k-1, ..., 1
LimbsLess(a, b, k) ==
    IF k = 0 THEN FALSE
    ELSE IF a[k] # b[k] THEN a[k] < b[k]
    ELSE LimbsLess(a, b, k - 1)

RECURSIVE Carry(_, _, _)
\* propagates carries (and borrows) of the non-normalised limbs a, from limb k on
Carry(a, k, c) ==
    IF k > Len(a) THEN <<>>
    ELSE LET s == a[k] + c
         IN  <<s % FrBase>> \o Carry(a, k + 1, s \div FrBase)

Norm(a) == Carry(a, 1, 0)

\* x of FrNbLimbs limbs and < 2 FrP, to its canonical representative
ReduceOnce(x) ==
    IF LimbsLess(x, FrP, FrNbLimbs) THEN x
    ELSE Norm([i \in 1..FrNbLimbs |-> x[i] - FrP[i]])

RECURSIVE SumRange(_, _, _, _, _)
\* \sum_{i = lo}^{hi} a[i] * b[k + 1 - i]
SumRange(a, b, k, lo, hi) ==
    IF lo > hi THEN 0 ELSE a[lo] * b[k + 1 - lo] + SumRange(a, b, k, lo + 1, hi)

\* the 2 * FrNbLimbs limbs of the integer product
IntProduct(a, b) ==
    Norm([k \in 1..(2 * FrNbLimbs) |->
            SumRange(a, b, k, IF k > FrNbLimbs THEN k + 1 - FrNbLimbs ELSE 1,
                              IF k > FrNbLimbs THEN FrNbLimbs ELSE k)])

\* 2r + bit mod FrP
DoubleAddBit(r, bit) ==
    ReduceOnce(Norm([i \in 1..FrNbLimbs |-> 2 * r[i] + (IF i = 1 THEN bit ELSE 0)]))

RECURSIVE ReduceLimb(_, _, _)
ReduceLimb(r, limb, pow) ==
    IF pow = 0 THEN r
    ELSE ReduceLimb(DoubleAddBit(r, (limb \div pow) % 2), limb, pow \div 2)

RECURSIVE ReduceFrom(_, _, _)
\* Horner evaluation of limbs x[k], ..., x[1] in the field, from r
ReduceFrom(x, k, r) ==
    IF k = 0 THEN r ELSE ReduceFrom(x, k - 1, ReduceLimb(r, x[k], FrBase \div 2))

RECURSIVE PowLimb(_, _, _, _)
RECURSIVE PowFrom(_, _, _, _)

(***************************************************************************)
(* The field operations.                                                    *)
(***************************************************************************)
FrAdd(a, b) == ReduceOnce(Norm([i \in 1..FrNbLimbs |-> a[i] + b[i]]))

FrSub(a, b) == IF LimbsLess(a, b, FrNbLimbs)
               THEN Norm([i \in 1..FrNbLimbs |-> a[i] + FrP[i] - b[i]])
               ELSE Norm([i \in 1..FrNbLimbs |-> a[i] - b[i]])

FrMul(a, b) == ReduceFrom(IntProduct(a, b), 2 * FrNbLimbs, FrZero)

\* the natural number n < 2^31 as a field element
FrNat(n) == Norm([i \in 1..FrNbLimbs |-> IF i = 1 THEN n ELSE 0])

PowLimb(r, a, limb, pow) ==
    IF pow = 0 THEN r
    ELSE LET sq == FrMul(r, r)
         IN  PowLimb(IF (limb \div pow) % 2 = 1 THEN FrMul(sq, a) ELSE sq,
                     a, limb, pow \div 2)
PowFrom(r, a, e, k) ==
    IF k = 0 THEN r ELSE PowFrom(PowLimb(r, a, e[k], FrBase \div 2), a, e, k - 1)

\* a^(p-2): the inverse of a non-zero element
FrInv(a) == PowFrom(FrOne, a, [FrP EXCEPT ![1] = @ + FrBase - 2, ![3] = @ - 1,
                                          ![2] = FrBase - 1], FrNbLimbs)
===============================================================================
