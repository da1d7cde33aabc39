--------------------------------- MODULE FieldOps --------------------------------
(***************************************************************************)
(* The field the system computes in, as parameters: a TLC configuration     *)
(* substitutes either the bn256 scalar field (Fr.tla; conformance checks)   *)
(* or a prime field with a handful of elements (SmallField.tla; exhaustive  *)
(* model checking).  Every other module is written over these parameters    *)
(* only, so both kinds of check run the same definitions.                   *)
(***************************************************************************)
\* TLCEval(x) is x; TLC evaluates it at once instead of on each use of an entry
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS FZero, FOne,
          FAdd(_, _), FSub(_, _), FMul(_, _), FInv(_), FNat(_)
================================================================================
