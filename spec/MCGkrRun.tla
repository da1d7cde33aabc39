-------------------------------- MODULE MCGkrRun ---------------------------------
(***************************************************************************)
(* The GKR prover and the GKR verifier, message by message, over a small     *)
(* field: for all inputs and all challenges the prover finds a message to     *)
(* send (its polynomials have the degree the layout allows), the verifier    *)
(* takes it, and accepts at the end.                                         *)
(***************************************************************************)
EXTENDS GkrVerifier, GkrProver, SmallField, TLC

CONSTANTS Circuits, BN

MCNbLayers(cc) == Len(Circuits[cc])
MCLayerOf(cc, k) == Circuits[cc][k]
MCBNOf(cc) == BN

vars == <<gvars, gpvars>>

Add  == [k |-> "add"]
Mul  == [k |-> "mul"]
Copy == [k |-> "copy"]
Lay(wires, gates) == [wires |-> wires, gates |-> gates, degs |-> [g \in 1..Len(gates) |-> GateDegrees(gates[g])]]
W(l, r, o, g) == [l |-> l, r |-> r, o |-> o, g |-> g]

N == Pow2(BN)
OutBGOf(cc) == BGOut(Circuits[cc][Len(Circuits[cc])].wires)
Outputs(cc, v) == EvalLayers(Circuits[cc], v, N, 1)
Coins == [i \in 1..8 |-> 2 % P]

Init ==
    \E cc \in DOMAIN Circuits :
    \E v \in [1..(N * Pow2(BGof(cc, 1))) -> {0, 1, P - 1}] :
        LET q  == SubSeq(Coins, 1, OutBGOf(cc))
            qp == SubSeq(Coins, 1, BN)
        IN  GpInit(cc, v, q, qp) /\ GInit(cc, q, qp, Outputs(cc, v))

HonestPoly ==
    LET n == PolyLen(c, layer, Len(chals) + 1)
        vals == [t \in 1..n |-> RoundValue(work, GpStage, FNat(t - 1))]
    IN  CHOOSE cs \in [1..n -> Fp] : Interpolates(cs, vals)

Round == gppc = "rounds" /\ LET cs == HonestPoly IN \E r \in Fp : GpSend(cs, r) /\ GRound(cs, r)
Claim == gppc = "claims" /\ GpClaim(work.vL[1], work.vR[1]) /\ UNCHANGED gvars
Merge == gppc = "merge" /\ \E lam \in Fp : GpMerge(lam) /\ GClose(work.vL[1], work.vR[1], lam)
Close == gppc = "done" /\ GCloseLast(work.vL[1], work.vR[1]) /\ UNCHANGED gpvars
Final == gppc = "done" /\ GFinal(levels[1], work.vL[1], work.vR[1]) /\ UNCHANGED gpvars
Next == Round \/ Claim \/ Merge \/ Close \/ Final
Spec == Init /\ [][Next]_vars

\* nobody gets stuck: whatever the challenges, the run can go on until the verifier has accepted
GoesOn == gpc # "accepted" => ENABLED Next
SameClaim == gppc \in {"rounds", "claims"} => claim = sums

Circ1 == << <<Lay(<<W(0, 1, 0, Mul), W(1, 1, 0, Add)>>, <<Mul, Add>>)>>,
            <<Lay(<<W(1, 0, 0, Add), W(1, 0, 1, Copy)>>, <<Add, Copy>>)>> >>
Circ2 == << <<Lay(<<W(0, 0, 0, Add), W(0, 0, 1, Copy)>>, <<Add, Copy>>), Lay(<<W(0, 0, 0, Copy), W(0, 1, 0, Mul)>>, <<Copy, Mul>>)>> >>
Circ3 == << <<Lay(<<W(0, 0, 0, Mul)>>, <<Mul>>), Lay(<<W(0, 0, 0, Mul), W(0, 0, 0, Mul)>>, <<Mul>>)>> >>
================================================================================
