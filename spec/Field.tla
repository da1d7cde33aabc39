--------------------------------- MODULE Field ---------------------------------
(***************************************************************************)
(* What can be said of any field (FieldOps), and integer helpers.           *)
(***************************************************************************)
EXTENDS FieldOps, Integers, Sequences, FiniteSets, TLC

FNeg(x) == FSub(FZero, x)

RECURSIVE FPow(_, _)
FPow(x, n) == IF n = 0 THEN FOne
              ELSE IF n = 1 THEN x
              ELSE LET h == FPow(x, n \div 2)
                       s == FMul(h, h)
                   IN  IF n % 2 = 1 THEN FMul(s, x) ELSE s

RECURSIVE SumRec(_, _, _)
SumRec(s, lo, hi) ==
    IF lo > hi THEN FZero
    ELSE IF lo = hi THEN s[lo]
    ELSE LET mid == (lo + hi) \div 2
         IN  FAdd(SumRec(s, lo, mid), SumRec(s, mid + 1, hi))
\* the sum of the entries of a sequence
Sum(s) == SumRec(s, 1, Len(s))

RECURSIVE ProdRec(_, _, _)
ProdRec(s, lo, hi) ==
    IF lo > hi THEN FOne
    ELSE IF lo = hi THEN s[lo]
    ELSE LET mid == (lo + hi) \div 2
         IN  FMul(ProdRec(s, lo, mid), ProdRec(s, mid + 1, hi))
Prod(s) == ProdRec(s, 1, Len(s))

\* integer helpers
RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)

\* least k with 2^k >= n, for n >= 1
RECURSIVE Log2CeilFrom(_, _)
Log2CeilFrom(n, k) == IF Pow2(k) >= n THEN k ELSE Log2CeilFrom(n, k + 1)
Log2Ceil(n) == Log2CeilFrom(n, 0)

IsPow2(n) == n >= 1 /\ Pow2(Log2Ceil(n)) = n

MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
Max(a, b) == IF a >= b THEN a ELSE b
Min(a, b) == IF a <= b THEN a ELSE b

\* bit number i (1 = most significant) of x written with n bits
BitOf(x, i, n) == (x \div Pow2(n - i)) % 2

RangeOf(s) == { s[i] : i \in DOMAIN s }
SubSeqFrom(s, i) == SubSeq(s, i, Len(s))
================================================================================
