-------------------------------- MODULE Numerals --------------------------------
(***************************************************************************)
(* Numbers as they are written: sequences of digits, most significant one   *)
(* first (common/math.go, common/common.go, common/env.go).  Numbers may be *)
(* larger than TLC's integers: they are measured on their digits, or read   *)
(* into the field.                                                          *)
(***************************************************************************)
EXTENDS Field
CONSTANTS Base,        \* the base numbers are written in, at least 2
          PDigits      \* the characteristic of the field, in that base

\* no digit is missing or too many
IsNumeral(d, b) == /\ Len(d) >= 1
                   /\ \A i \in DOMAIN d : d[i] \in 0..(b - 1)
                   /\ Len(d) > 1 => d[1] # 0

RECURSIVE ReadFrom(_, _, _, _)
ReadFrom(d, b, i, acc) ==
    IF i > Len(d) THEN acc
    ELSE ReadFrom(d, b, i + 1, TLCEval(FAdd(FMul(acc, FNat(b)), FNat(d[i]))))
\* the field element a numeral in base b denotes
Read(d, b) == ReadFrom(d, b, 1, FZero)

RECURSIVE IntOf(_, _)
\* the integer it denotes, if it is small
IntOf(d, b) == IF d = <<>> THEN 0 ELSE IntOf(SubSeq(d, 1, Len(d) - 1), b) * b + d[Len(d)]

RECURSIVE Before(_, _, _)
Before(d, e, i) == IF i > Len(d) THEN FALSE ELSE IF d[i] # e[i] THEN d[i] < e[i] ELSE Before(d, e, i + 1)
\* numerals in order
Less(d, e) == Len(d) < Len(e) \/ (Len(d) = Len(e) /\ Before(d, e, 1))

(***************************************************************************)
(* Logarithms of a positive number, given in base 2.                        *)
(***************************************************************************)
Log2FloorOf(bits) == Len(bits) - 1
Log2CeilOf(bits) == IF \A i \in 2..Len(bits) : bits[i] = 0 THEN Len(bits) - 1 ELSE Len(bits)

(***************************************************************************)
(* Printing an element: the canonical numeral of the element, or that of    *)
(* its opposite after a minus sign, and whichever is shorter.                *)
(***************************************************************************)
IsCanonical(d, x) == IsNumeral(d, Base) /\ Less(d, PDigits) /\ Read(d, Base) = x
\* own and opp are the canonical numerals of x and of its opposite
PrintsAs(neg, d, x, own, opp) ==
    /\ IsCanonical(own, x) /\ IsCanonical(opp, FNeg(x))
    /\ IF neg THEN d = opp /\ Len(opp) <= Len(own) /\ x # FZero
              ELSE d = own /\ Len(own) <= Len(opp)

(***************************************************************************)
(* Parameters: an integer is an optional sign and at least one digit.       *)
(* Characters are strings of length one.                                    *)
(***************************************************************************)
DigitChars == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
IsDigit(ch) == \E i \in 1..10 : DigitChars[i] = ch
DigitOf(ch) == (CHOOSE i \in 1..10 : DigitChars[i] = ch) - 1
Unsigned(chars) == IF Len(chars) > 0 /\ chars[1] \in {"+", "-"} THEN SubSeqFrom(chars, 2) ELSE chars
IsInteger(chars) == LET u == Unsigned(chars) IN Len(u) >= 1 /\ \A i \in DOMAIN u : IsDigit(u[i])
IntegerOf(chars) ==
    LET u == Unsigned(chars)
        n == IntOf([i \in DOMAIN u |-> DigitOf(u[i])], 10)
    IN  IF chars[1] = "-" THEN -n ELSE n
================================================================================
