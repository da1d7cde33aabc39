------------------------------- MODULE MCNumerals -------------------------------
(***************************************************************************)
(* Counting from 1: the numerals of n and the two logarithms are carried    *)
(* along, and what Numerals says of them holds of every n up to N.          *)
(***************************************************************************)
EXTENDS Numerals, SmallField
CONSTANT N
P23 == <<2, 1, 2>>

VARIABLES n, bits, dec, floor, ceil
vars == <<n, bits, dec, floor, ceil>>

RECURSIVE Succ(_, _)
\* the next numeral
Succ(d, b) ==
    IF d = <<>> THEN <<1>>
    ELSE LET k == Len(d) IN
         IF d[k] < b - 1 THEN [d EXCEPT ![k] = @ + 1]
         ELSE Succ(SubSeq(d, 1, k - 1), b) \o <<0>>

Init == n = 1 /\ bits = <<1>> /\ dec = <<1>> /\ floor = 0 /\ ceil = 0
Count ==
    /\ n < N
    /\ n' = n + 1
    /\ bits' = Succ(bits, 2) /\ dec' = Succ(dec, Base)
    \* n + 1 reaches the next power of two, or leaves one
    /\ floor' = IF n + 1 = Pow2(floor + 1) THEN floor + 1 ELSE floor
    /\ ceil' = IF n = Pow2(ceil) THEN ceil + 1 ELSE ceil
Next == Count
Spec == Init /\ [][Next]_vars

Measured == /\ floor = Log2FloorOf(bits) /\ ceil = Log2CeilOf(bits)
            /\ Pow2(floor) <= n /\ n < Pow2(floor + 1)
            /\ n <= Pow2(ceil) /\ (ceil > 0 => Pow2(ceil - 1) < n)
            /\ ceil = Log2Ceil(n)
Denotes == /\ IsNumeral(bits, 2) /\ IsNumeral(dec, Base)
           /\ IntOf(bits, 2) = n /\ IntOf(dec, Base) = n
           /\ Read(bits, 2) = n % P /\ Read(dec, Base) = n % P
\* order of numerals is order of numbers
Ordered == (n < P) <=> Less(dec, PDigits)

(***************************************************************************)
(* Every element has exactly one canonical numeral, and can be printed; a   *)
(* printed numeral denotes one element only.                                *)
(***************************************************************************)
RECURSIVE NumeralOf(_)
NumeralOf(k) == IF k = 0 THEN <<0>> ELSE IF k = 1 THEN <<1>> ELSE Succ(NumeralOf(k - 1), Base)
Num(x) == NumeralOf(x)
Printings(x) == { r \in BOOLEAN \X { Num(y) : y \in Fp } : PrintsAs(r[1], r[2], x, Num(x), Num(FNeg(x))) }
ASSUME \A x \in Fp : IsCanonical(Num(x), x) /\ \A y \in Fp : IsCanonical(Num(y), x) => y = x
ASSUME \A x \in Fp : Printings(x) # {} /\ \A y \in Fp \ {x} : Printings(x) \cap Printings(y) = {}
================================================================================
