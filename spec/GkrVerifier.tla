------------------------------- MODULE GkrVerifier -------------------------------
(***************************************************************************)
(* The GKR verifier (gkr/verifier.go) as a state machine consuming the      *)
(* prover's messages: for each layer, from the output layer down, the round *)
(* polynomials, then a left and a right claim; at the end the inputs.       *)
(***************************************************************************)
EXTENDS GkrLayout

VARIABLES c,        \* the statement (circuit, batch size, inputs, outputs) under verification
          layer,    \* current layer, NbLayers(c) .. 1
          srcs,     \* weighted points on the layer's outputs: see LayerInstance
          qPrime,   \* point on the instances
          claim,    \* running claim
          chals,    \* challenges of the current layer
          gpc       \* "round", "close", "final", "accepted", "rejected"
gvars == <<c, layer, srcs, qPrime, claim, chals, gpc>>

PcAt(cc, k) == IF RoundsOf(cc, k) = 0 THEN "close" ELSE "round"

\* q: initial point on the outputs, qp: initial point on the instances
GInit(cc, q, qp, outputs) ==
    /\ c = cc
    /\ layer = NbLayers(cc)
    /\ srcs = <<[w |-> FOne, q |-> q]>>
    /\ qPrime = qp
    /\ claim = Eval(outputs, q \o qp)
    /\ chals = <<>>
    /\ gpc = PcAt(cc, NbLayers(cc))

\* the proof does not have the layout the statement calls for
GInitMalformed(cc) ==
    /\ c = cc
    /\ layer = NbLayers(cc)
    /\ srcs = <<>> /\ qPrime = <<>> /\ claim = FZero /\ chals = <<>>
    /\ gpc = "rejected"

PL == SubSeq(chals, 1, BGof(c, layer))
PR == SubSeq(chals, BGof(c, layer) + 1, 2 * BGof(c, layer))
PH == SubSeq(chals, 2 * BGof(c, layer) + 1, Len(chals))

GReject ==
    /\ gpc' = "rejected"
    /\ UNCHANGED <<c, layer, srcs, qPrime, claim, chals>>

GRound(cs, r) ==
    /\ gpc = "round"
    /\ AtZeroAndOne(cs) = claim
    /\ claim' = UniEval(cs, r)
    /\ chals' = Append(chals, r)
    /\ gpc' = IF Len(chals) + 1 = RoundsOf(c, layer) THEN "close" ELSE "round"
    /\ UNCHANGED <<c, layer, srcs, qPrime>>

GBadRound(cs) == gpc = "round" /\ AtZeroAndOne(cs) # claim /\ GReject

ClosesWith(vL, vR) ==
    claim = LayerCombined(LayerOf(c, layer), srcs, qPrime, PL, PR, PH, vL, vR)

GClose(vL, vR, lambda) ==
    /\ gpc = "close"
    /\ layer > 1
    /\ ClosesWith(vL, vR)
    /\ layer' = layer - 1
    /\ srcs' = <<[w |-> FOne, q |-> PL], [w |-> lambda, q |-> PR]>>
    /\ qPrime' = PH
    /\ claim' = FAdd(vL, FMul(lambda, vR))
    /\ chals' = <<>>
    /\ gpc' = PcAt(c, layer - 1)
    /\ UNCHANGED c

GCloseLast(vL, vR) ==
    /\ gpc = "close"
    /\ layer = 1
    /\ ClosesWith(vL, vR)
    /\ gpc' = "final"
    /\ UNCHANGED <<c, layer, srcs, qPrime, claim, chals>>

GBadClose(vL, vR) == gpc = "close" /\ ~ClosesWith(vL, vR) /\ GReject

InputsMatch(inputs, vL, vR) == Eval(inputs, PL \o PH) = vL /\ Eval(inputs, PR \o PH) = vR

GFinal(inputs, vL, vR) ==
    /\ gpc = "final"
    /\ InputsMatch(inputs, vL, vR)
    /\ gpc' = "accepted"
    /\ UNCHANGED <<c, layer, srcs, qPrime, claim, chals>>

GBadFinal(inputs, vL, vR) == gpc = "final" /\ ~InputsMatch(inputs, vL, vR) /\ GReject
================================================================================
