------------------------------ MODULE SumcheckDefs ------------------------------
(***************************************************************************)
(* What a sumcheck instance is about (package sumcheck).                    *)
(* An instance is a record                                                  *)
(*   vL  : table over (hL, h')        vR : table over (hR, h')              *)
(*   eq  : table over h'              gates : Seq(gate)                     *)
(*   st  : one table over (hL, hR) for each gate                            *)
(* and its claim is                                                         *)
(*   \sum_{hL, hR, h'} eq(h') \sum_g st_g(hL, hR) g(vL(hL, h'), vR(hR, h')) *)
(* The variables are bound in the order hL, hR, h'.                         *)
(***************************************************************************)
EXTENDS Circuit

NbH(I)  == Len(I.eq)
NbL(I)  == Len(I.vL) \div Len(I.eq)
NbR(I)  == Len(I.vR) \div Len(I.eq)

ClaimOf(I) ==
    LET n  == NbH(I)
        nL == NbL(I)
        nR == NbR(I)
        Cell(g, l, r) ==   \* \sum_h' eq * gate
            Sum([h \in 1..n |-> FMul(I.eq[h], GateEval(I.gates[g], I.vL[l * n + h], I.vR[r * n + h]))])
        PerGate(g) ==
            Sum([x \in 1..(nL * nR) |->
                 IF I.st[g][x] = FZero THEN FZero
                 ELSE FMul(I.st[g][x], Cell(g, (x - 1) \div nR, (x - 1) % nR))])
    IN  Sum([g \in 1..Len(I.gates) |-> PerGate(g)])

\* the stage a round belongs to: "L" for rounds 1..bG, "R" for bG+1..2bG, then "H"
StageOf(round, bG) == IF round <= bG THEN "L" ELSE IF round <= 2 * bG THEN "R" ELSE "H"

\* binds the next variable of the given stage to r
Bind(I, stage, r) ==
    CASE stage = "L" -> [I EXCEPT !.vL = Fold(@, r), !.st = TLCEval([g \in 1..Len(@) |-> Fold(@[g], r)])]
      [] stage = "R" -> [I EXCEPT !.vR = Fold(@, r), !.st = TLCEval([g \in 1..Len(@) |-> Fold(@[g], r)])]
      [] stage = "H" -> [I EXCEPT !.vL = Fold(@, r), !.vR = Fold(@, r), !.eq = Fold(@, r)]

\* value at t of the round polynomial of the instance
RoundValue(I, stage, t) == ClaimOf(Bind(I, stage, t))

\* cs is the round polynomial.  The comparison uses one point more than cs has coefficients,
\* so that a polynomial truncated below its degree is noticed.
IsRoundPoly(I, stage, cs) ==
    \A t \in 0..Len(cs) : UniEval(cs, FNat(t)) = RoundValue(I, stage, FNat(t))

\* everything bound: the values the prover claims
FinalClaims(I) == <<I.vL[1], I.vR[1], I.eq[1]>> \o [g \in 1..Len(I.gates) |-> I.st[g][1]]

\* the value a completely bound instance contributes
Combined(gates, statics, eq, vL, vR) ==
    FMul(eq, Sum([g \in 1..Len(gates) |-> FMul(statics[g], GateEval(gates[g], vL, vR))]))

(***************************************************************************)
(* The instance the GKR protocol builds for a layer: srcs is the sequence   *)
(* of [w: weight, q: point] whose weighted wiring predicates are used (one  *)
(* for the output layer, two after a merge of a left and a right claim).    *)
(***************************************************************************)
LayerStatic(wires, g, srcs, nI) ==
    LET tabs == TLCEval([i \in 1..Len(srcs) |-> WiringTable(wires, g, srcs[i].q, nI)])
    IN  TLCEval([x \in 1..(nI * nI) |-> Sum([i \in 1..Len(srcs) |-> FMul(srcs[i].w, tabs[i][x])])])

LayerInstance(layer, v, srcs, qPrime) ==
    [vL |-> v, vR |-> v, eq |-> EqTable(qPrime), gates |-> layer.gates,
     st |-> TLCEval([g \in 1..Len(layer.gates) |->
             LayerStatic(layer.wires, layer.gates[g], srcs, Pow2(BGIn(layer.wires)))])]

\* what the verifier evaluates instead: the combination at the point the challenges define
LayerCombined(layer, srcs, qPrime, hL, hR, hP, vL, vR) ==
    Combined(layer.gates,
             [g \in 1..Len(layer.gates) |->
                 Sum([i \in 1..Len(srcs) |->
                      FMul(srcs[i].w, WiringAt(layer.wires, layer.gates[g], srcs[i].q, hL, hR))])],
             EqEval(qPrime, hP), vL, vR)
================================================================================
