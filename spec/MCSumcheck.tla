------------------------------- MODULE MCSumcheck -------------------------------
(***************************************************************************)
(* The sumcheck prover against the sumcheck verifier, over a small field:   *)
(* all tables with values in Vals, all challenges.                          *)
(***************************************************************************)
EXTENDS SumcheckProver, SmallField, TLC

CONSTANTS LogN, LogG, Vals, GateSet

VARIABLES expected, hs, vpc
SV == INSTANCE SumcheckVerifier
svars == <<expected, hs, vpc>>
vars == <<pvars, svars>>

NN == Pow2(LogN)
GG == Pow2(LogG)

Init ==
    /\ \E l, r \in [1..(NN * GG) -> Vals], e \in [1..NN -> Vals], s \in [1..(GG * GG) -> {0, 1, 2}], g \in GateSet :
           PInit([vL |-> l, vR |-> r, eq |-> e, gates |-> <<g>>, st |-> <<s>>])
    /\ SV!SVInit(running)

PolyLen(stage) ==
    LET d == GateDegrees(inst.gates[1])
    IN  1 + (CASE stage = "L" -> d[1] + 1 [] stage = "R" -> d[2] + 1 [] stage = "H" -> d[3] + 1)

\* the round polynomial, interpolated from its values (Poly!Interpolates)
HonestPoly ==
    LET stage == StageOf(round, nbG)
        vals == [t \in 1..PolyLen(stage) |-> RoundValue(inst, stage, FNat(t - 1))]
    IN  CHOOSE cs \in [1..PolyLen(stage) -> Fp] : Interpolates(cs, vals)

Round == ppc = "rounds" /\ LET cs == HonestPoly IN \E r \in Fp : PRound(cs, r) /\ SV!SVRound(cs, r)
Stuck == ppc = "rounds" /\ LET cs == HonestPoly IN SV!SVReject(cs) /\ UNCHANGED pvars
Reveal == PReveal(FinalClaims(inst)) /\ SV!SVAccept
Next == Round \/ Stuck \/ Reveal
Spec == Init /\ [][Next]_vars

NeverRejected == vpc # "rejected"
AgreeOnClaim == expected = running
AcceptedIsTrue ==
    vpc = "accepted" => expected = Combined(inst.gates, [g \in 1..Len(inst.gates) |-> inst.st[g][1]],
                                           inst.eq[1], inst.vL[1], inst.vR[1])
AddG  == [k |-> "add"]
MulG  == [k |-> "mul"]
CopyG == [k |-> "copy"]
Gates1 == {AddG, MulG, CopyG}
Gates2 == {MulG}
Bits == {0, 1}
Trits == {0, 1, 3}
================================================================================
