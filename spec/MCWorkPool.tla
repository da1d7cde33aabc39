------------------------------- MODULE MCWorkPool -------------------------------
(***************************************************************************)
(* The pools of this code, every interleaving.  Kind chooses among them:    *)
(*   "evaluate"  layers.go, circuit.go: one burst each, semaphore closed     *)
(*   "prover"    par.go: rounds with a barrier, semaphore left open          *)
(*   "claim"     par.go GetClaim: one burst, semaphore left open             *)
(*   "gated"     book_keeping.go: the caller takes the tokens                *)
(***************************************************************************)
EXTENDS WorkPool
================================================================================
