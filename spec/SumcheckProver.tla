----------------------------- MODULE SumcheckProver -----------------------------
(***************************************************************************)
(* The sumcheck prover as a state machine: one step per round, sending the  *)
(* round polynomial and binding the next variable to the challenge, then    *)
(* one step revealing the values of the bound tables.                       *)
(***************************************************************************)
EXTENDS SumcheckDefs

VARIABLES inst,     \* the instance with the variables bound so far
          round,    \* next round, 1-based
          nbRounds, nbG,
          running,  \* the value the next round polynomial has to sum to
          ppc       \* "rounds", "reveal", "done"
pvars == <<inst, round, nbRounds, nbG, running, ppc>>

PInit(I) ==
    /\ inst = I
    /\ round = 1
    /\ nbG = Log2Ceil(NbL(I))
    /\ nbRounds = 2 * Log2Ceil(NbL(I)) + Log2Ceil(NbH(I))
    /\ running = ClaimOf(I)
    /\ ppc = IF 2 * Log2Ceil(NbL(I)) + Log2Ceil(NbH(I)) = 0 THEN "reveal" ELSE "rounds"

PRound(cs, r) ==
    /\ ppc = "rounds"
    /\ IsRoundPoly(inst, StageOf(round, nbG), cs)
    /\ inst' = Bind(inst, StageOf(round, nbG), r)
    /\ running' = UniEval(cs, r)
    /\ round' = round + 1
    /\ ppc' = IF round = nbRounds THEN "reveal" ELSE "rounds"
    /\ UNCHANGED <<nbRounds, nbG>>

PReveal(claims) ==
    /\ ppc = "reveal"
    /\ claims = FinalClaims(inst)
    /\ ppc' = "done"
    /\ UNCHANGED <<inst, round, nbRounds, nbG, running>>

\* the instance with the variables bound so far still sums to the running claim
RunningClaim == ClaimOf(inst) = running

\* at the end the claims combine to the running claim: what the verifier relies on
RevealCombines ==
    ppc # "rounds" => running = Combined(inst.gates, [g \in 1..Len(inst.gates) |-> inst.st[g][1]],
                                         inst.eq[1], inst.vL[1], inst.vR[1])
================================================================================
