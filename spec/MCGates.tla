--------------------------------- MODULE MCGates --------------------------------
(***************************************************************************)
(* The gates as functions on a small field: the degrees GateDegrees states  *)
(* bound the degree in each operand and in both together, and are reached   *)
(* (all iterated differences of that order vanish, not of one less).  The   *)
(* multilinear extension of a gate's wires is what LayerCombined uses.      *)
(* A state is a gate and a pair of lines the operands run along.            *)
(***************************************************************************)
EXTENDS Gates, SmallField, TLC

VARIABLES g, which, l0, r0, dl, dr,    \* operands l0 + t dl, r0 + t dr
          diffs                        \* iterated differences of the gate along the line
vars == <<g, which, l0, r0, dl, dr, diffs>>

Gates == {[k |-> "add"], [k |-> "mul"], [k |-> "copy"],
          [k |-> "poly", terms |-> <<[c |-> 3, i |-> 2, j |-> 1]>>],
          [k |-> "poly", terms |-> <<[c |-> 1, i |-> 0, j |-> 3], [c |-> 2, i |-> 2, j |-> 2]>>]}
         \cup {[k |-> "cipher", ark |-> a] : a \in {0, 1, P - 2}}

Along(gg, l, r, a, b) == [t \in 1..10 |-> GateEval(gg, FAdd(l, FMul(FNat(t - 1), a)), FAdd(r, FMul(FNat(t - 1), b)))]

Init == /\ g \in Gates /\ which \in 1..3
        /\ l0 \in Fp /\ r0 \in Fp
        /\ dl \in (IF which = 2 THEN {0} ELSE IF which = 1 THEN 1..2 ELSE 0..2)
        /\ dr \in (IF which = 1 THEN {0} ELSE IF which = 2 THEN 1..2 ELSE 0..2)
        /\ diffs = Along(g, l0, r0, dl, dr)
\* one more difference
Difference == /\ Len(diffs) > 1
              /\ diffs' = [i \in 1..(Len(diffs) - 1) |-> FSub(diffs[i + 1], diffs[i])]
              /\ UNCHANGED <<g, which, l0, r0, dl, dr>>
Next == Difference
Spec == Init /\ [][Next]_vars

Order == 10 - Len(diffs)
BoundsDegree == Order > GateDegrees(g)[which] => \A i \in DOMAIN diffs : diffs[i] = 0
\* SameGate never calls two gates of a set the same that differ somewhere
Distinguishes == \A h \in Gates : SameGate(g, h) => GateEval(g, l0, r0) = GateEval(h, l0, r0)
Reached == \A gg \in Gates : \A w \in 1..3 :
    LET d == GateDegrees(gg)[w] IN
    d > 0 => \E l, r \in Fp : \E a, b \in 0..2 :
        /\ w = 1 => b = 0
        /\ w = 2 => a = 0
        /\ LET s == Along(gg, l, r, a, b)
               RECURSIVE Dif(_, _)
               Dif(x, n) == IF n = 0 THEN x ELSE Dif([i \in 1..(Len(x) - 1) |-> FSub(x[i + 1], x[i])], n - 1)
           IN  \E i \in DOMAIN Dif(s, d) : Dif(s, d)[i] # 0
ASSUME Reached
================================================================================
