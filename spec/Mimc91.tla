---------------------------------- MODULE Mimc91 --------------------------------
(***************************************************************************)
(* The proving circuit of MiMC (examples/mimc.go) as a layered circuit: for *)
(* each round a cipher wire and a wire copying the key, the last without.   *)
(***************************************************************************)
EXTENDS Circuit, Sponge

MimcLayer(i) ==
    LET cipher == [l |-> 1, r |-> 0, o |-> 0, g |-> [k |-> "cipher", ark |-> Ark(i)]]
        copy   == [l |-> 1, r |-> 0, o |-> 1, g |-> [k |-> "copy"]]
    IN  IF i < MimcRounds THEN <<cipher, copy>> ELSE <<cipher>>

\* the permutation after its first k rounds
MimcPartial(s, key, k) == FoldRounds(LAMBDA x, i : SBox(FAdd(FAdd(x, key), Ark(i))), s, k)
================================================================================
