-------------------------------- MODULE GkrProver --------------------------------
(***************************************************************************)
(* The GKR prover (gkr/prover.go) as a state machine that sends its          *)
(* messages: for each layer, from the output layer down, the round           *)
(* polynomials of the sumcheck of that layer's instance, then the two values *)
(* the layer's inputs have at the points the challenges make up.  The        *)
(* transcript is determined by circuit, batch and challenges.                *)
(***************************************************************************)
EXTENDS GkrStatement, TLC

VARIABLES stmt,      \* the statement: circuit and batch
          levels,    \* levels[k]: the values below layer k; the last one are the outputs
          at,        \* the layer being proved, NbLayers .. 1
          work,      \* its sumcheck instance, with the variables bound so far
          bound,     \* the challenges they have been bound to
          point,     \* the point on the instances the layer's outputs are claimed at
          sums,      \* the value the next round polynomial has to sum to
          gppc       \* "rounds", "claims", "merge", "done"
gpvars == <<stmt, levels, at, work, bound, point, sums, gppc>>

GpBG(s, k) == BGIn(LayerOf(s, k).wires)
GpRounds(s, k) == 2 * GpBG(s, k) + BNOf(s)
GpPc(s, k) == IF GpRounds(s, k) = 0 THEN "claims" ELSE "rounds"

RECURSIVE Levels(_, _, _, _)
Levels(s, v, n, k) == IF k > NbLayers(s) THEN <<v>>
                      ELSE <<v>> \o Levels(s, TLCEval(EvalLayer(LayerOf(s, k).wires, v, n)), n, k + 1)

GpInit(s, inputs, q, qp) ==
    /\ stmt = s
    /\ at = NbLayers(s)
    /\ LET ls == TLCEval(Levels(s, inputs, Pow2(BNOf(s)), 1))
       IN  /\ levels = ls
           /\ work = LayerInstance(LayerOf(s, NbLayers(s)), ls[NbLayers(s)], <<[w |-> FOne, q |-> q]>>, qp)
           /\ sums = Eval(ls[NbLayers(s) + 1], q \o qp)
    /\ bound = <<>> /\ point = qp
    /\ gppc = GpPc(s, NbLayers(s))

GpStage == StageOf(Len(bound) + 1, GpBG(stmt, at))

\* a round polynomial, answered by a challenge
GpSend(cs, r) ==
    /\ gppc = "rounds"
    /\ IsRoundPoly(work, GpStage, cs)
    /\ work' = Bind(work, GpStage, r)
    /\ bound' = Append(bound, r)
    /\ sums' = UniEval(cs, r)
    /\ gppc' = IF Len(bound) + 1 = GpRounds(stmt, at) THEN "claims" ELSE "rounds"
    /\ UNCHANGED <<stmt, levels, at, point>>

\* the two values
GpClaim(vL, vR) ==
    /\ gppc = "claims"
    /\ vL = work.vL[1] /\ vR = work.vR[1]
    /\ gppc' = IF at = 1 THEN "done" ELSE "merge"
    /\ UNCHANGED <<stmt, levels, at, work, bound, point, sums>>

GpL == SubSeq(bound, 1, GpBG(stmt, at))
GpR == SubSeq(bound, GpBG(stmt, at) + 1, 2 * GpBG(stmt, at))
GpH == SubSeq(bound, 2 * GpBG(stmt, at) + 1, Len(bound))

\* the two claims become one about the layer below
GpMerge(lambda) ==
    /\ gppc = "merge"
    /\ at' = at - 1
    /\ point' = GpH
    /\ work' = LayerInstance(LayerOf(stmt, at - 1), levels[at - 1],
                             <<[w |-> FOne, q |-> GpL], [w |-> lambda, q |-> GpR]>>, GpH)
    /\ sums' = FAdd(work.vL[1], FMul(lambda, work.vR[1]))
    /\ bound' = <<>>
    /\ gppc' = GpPc(stmt, at - 1)
    /\ UNCHANGED <<stmt, levels>>

\* why the protocol works: the running value is the claim of the instance, merged claims included,
\* and what is revealed at the end of a layer are values of the layer below's outputs
SumsUp == gppc \in {"rounds", "claims"} => ClaimOf(work) = sums
Reveals == gppc \in {"merge", "done"} =>
              /\ work.vL[1] = Eval(levels[at], GpL \o GpH)
              /\ work.vR[1] = Eval(levels[at], GpR \o GpH)
================================================================================
