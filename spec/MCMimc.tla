---------------------------------- MODULE MCMimc --------------------------------
(***************************************************************************)
(* The proving circuit of MiMC computes MiMC: after k layers an instance     *)
(* holds the state of the permutation after k rounds plus the key, and the   *)
(* key; so that the whole circuit gives permutation plus key, and adding the *)
(* initial state gives the update of the hash.  Every state and key of a     *)
(* small field, two instances at once.                                       *)
(***************************************************************************)
EXTENDS Mimc91, SmallField

MCArk(i) == (3 * i * i + 5 * i + 1) % P
MCX(i) == i
MCY(i) == i

VARIABLES s1, k1, s2, k2,  \* states and keys of the two instances
          k, v             \* layers computed, values
vars == <<s1, k1, s2, k2, k, v>>

Init == /\ s1 \in Fp /\ k1 \in Fp /\ s2 \in {0, 2} /\ k2 \in {1, P - 1}
        /\ k = 0
        /\ v = <<FAdd(s1, k1), FAdd(s2, k2), k1, k2>>
Layer == /\ k < MimcRounds
         /\ v' = EvalLayer(MimcLayer(k + 1), v, 2)
         /\ k' = k + 1
         /\ UNCHANGED <<s1, k1, s2, k2>>
Next == Layer
Spec == Init /\ [][Next]_vars

Holds == LET a == FAdd(MimcPartial(s1, k1, k), k1)
             b == FAdd(MimcPartial(s2, k2, k), k2)
         IN  v = IF k < MimcRounds THEN <<a, b, k1, k2>> ELSE <<a, b>>
IsUpdate == k = MimcRounds => FAdd(v[1], s1) = MimcUpdate(s1, k1) /\ FAdd(v[2], s2) = MimcUpdate(s2, k2)
================================================================================
