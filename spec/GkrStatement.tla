------------------------------ MODULE GkrStatement ------------------------------
(***************************************************************************)
(* What a GKR proof is about: statements, numbered, each with a circuit and  *)
(* a batch size.                                                            *)
(***************************************************************************)
EXTENDS SumcheckDefs

CONSTANTS NbLayers(_),      \* of statement c
          LayerOf(_, _),    \* layer k of statement c: [wires, gates], 1 is the closest to the inputs
          BNOf(_)           \* log2 of the number of instances
================================================================================
