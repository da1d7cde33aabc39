------------------------------- MODULE Occupancy -------------------------------
(***************************************************************************)
(* What a caller can observe of a call that spreads work over workers:      *)
(* workers enter and leave computations, the call returns, and nothing of   *)
(* it remains.  At most `cores' workers compute at the same time; when the    *)
(* call returns nobody computes any more, and nobody ever does again.       *)
(* WorkPool (the pools of this code) refines this specification; the        *)
(* recorded executions are stepped through its actions.                     *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets
VARIABLES inside, phase     \* phase: "running", "returned", "quiet"
ovars == <<inside, phase>>

OInit == inside = {} /\ phase = "running"
OEnter(w, cores) == /\ phase = "running" /\ w \notin inside
             /\ Cardinality(inside) < cores
             /\ inside' = inside \cup {w}
             /\ UNCHANGED phase
OLeave(w) == w \in inside /\ inside' = inside \ {w} /\ UNCHANGED phase
OReturn   == phase = "running" /\ inside = {} /\ phase' = "returned" /\ UNCHANGED inside
\* left: number of processes of the call that still exist
OQuiet(left) == phase = "returned" /\ left = 0 /\ phase' = "quiet" /\ UNCHANGED inside
================================================================================
