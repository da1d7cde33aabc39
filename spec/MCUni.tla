---------------------------------- MODULE MCUni ---------------------------------
(***************************************************************************)
(* Interpolation on 0..N-1 over a small field, as an incremental            *)
(* computation: vals are taken in one after the other, and cs, of degree    *)
(* below the number of values taken in, interpolates them at every step     *)
(* (Newton).  Uniqueness: no other coefficients of that length do.          *)
(***************************************************************************)
EXTENDS Poly, SmallField, TLC
CONSTANT N

VARIABLES vals, cs, basis   \* basis: the coefficients of x (x-1) ... (x - Len(vals) + 1)
vars == <<vals, cs, basis>>

ShiftUp(p) == <<FZero>> \o p
Pad(p, n) == [i \in 1..n |-> IF i <= Len(p) THEN p[i] ELSE FZero]
AddPoly(p, q) == LET n == Max(Len(p), Len(q)) IN TabAdd(Pad(p, n), Pad(q, n))

Init == vals = <<>> /\ cs = <<>> /\ basis = <<FOne>>
Take == \E v \in Fp :
    /\ Len(vals) < N
    /\ LET k == FNat(Len(vals))
           d == FMul(FSub(v, UniEval(cs, k)), FInv(UniEval(basis, k)))
       IN  /\ cs' = AddPoly(cs, TabScale(d, basis))
           /\ basis' = AddPoly(ShiftUp(basis), TabScale(FNeg(k), basis))
           /\ vals' = Append(vals, v)
Next == Take
Spec == Init /\ [][Next]_vars

Correct == Interpolates(cs, vals) /\ Len(cs) = Len(vals)
\* evaluation in Horner's way is evaluation monomial by monomial
Evaluation == \A x \in Fp : UniEval(cs, x) = UniEvalDef(cs, x)
ValuesOf(p, n) == [i \in 1..n |-> UniEval(p, FNat(i - 1))]
Unique == Len(vals) = 0 => \A n \in 1..N :
             Cardinality({ ValuesOf(p, n) : p \in [1..n -> Fp] }) = Cardinality([1..n -> Fp])
================================================================================
