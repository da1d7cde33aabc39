------------------------------- MODULE MCParProver -------------------------------
(***************************************************************************)
(* ParProver over a small field, exhaustively: every interleaving.          *)
(***************************************************************************)
EXTENDS ParProver, SmallField, TLC
MulG  == [k |-> "mul"]
CopyG == [k |-> "copy"]
\* bG = 1, bN = 1
Whole2 == [vL |-> <<1, 2, 0, 3>>, vR |-> <<4, 1, 2, 2>>, eq |-> <<3, 1>>, gates |-> <<MulG, CopyG>>,
           st |-> << <<0, 1, 2, 0>>, <<1, 0, 0, 4>> >>]
\* bG = 0, bN = 2
Whole4 == [vL |-> <<1, 2, 0, 3>>, vR |-> <<4, 1, 2, 2>>, eq |-> <<3, 1, 0, 2>>, gates |-> <<MulG, CopyG>>,
           st |-> << <<2>>, <<3>> >>]
\* bG = 0, bN = 3
Whole8 == [vL |-> <<1, 2, 0, 3, 4, 4, 1, 0>>, vR |-> <<4, 1, 2, 2, 0, 3, 3, 1>>, eq |-> <<3, 1, 0, 2, 1, 1, 4, 0>>, gates |-> <<MulG>>,
           st |-> << <<2>> >>]
================================================================================
