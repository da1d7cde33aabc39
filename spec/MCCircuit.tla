-------------------------------- MODULE MCCircuit -------------------------------
(***************************************************************************)
(* Layers, built wire by wire: the identities on which the protocol rests.   *)
(*                                                                          *)
(*   Counting:  the wiring predicate summed over the wires is the extension  *)
(*              of the table counting them                                   *)
(*   Folded:    the prefolded table is that table folded at q                *)
(*   Identity:  the extension of the outputs at (q, q') is the sumcheck      *)
(*              claim of the layer (and of a merge of two points)            *)
(*   Combines:  with everything bound, it is the combination                 *)
(*   Chunked:   evaluating chunk by chunk is evaluating the whole            *)
(***************************************************************************)
EXTENDS SumcheckDefs, SmallField, TLC, SequencesExt
CONSTANTS MaxWires, Width, OWidth

VARIABLES wires
vars == <<wires>>

Gates3 == {[k |-> "add"], [k |-> "cipher", ark |-> 0], [k |-> "cipher", ark |-> 1]}
Wires == [l : 0..(Width - 1), r : 0..(Width - 1), o : 0..(OWidth - 1), g : Gates3]

Init == wires = <<>>
Wire == /\ Len(wires) < MaxWires
        /\ \E w \in Wires : wires' = Append(wires, w)
Next == Wire
Spec == Init /\ [][Next]_vars

Layer == [wires |-> wires, gates |-> SetToSeq(DistinctGates(wires))]
nI == Pow2(BGIn(wires))
nO == Pow2(BGOut(wires))
N == 2
\* fixed but arbitrary values and points
Val(i) == (3 * i * i + i + 2) % P
V == [x \in 1..(N * nI) |-> Val(x)]
Pt(n, k) == [i \in 1..n |-> (2 + k + 3 * i) % P]
Q == Pt(BGOut(wires), 0)
Q2 == Pt(BGOut(wires), 1)
QP == Pt(1, 2)
HL == Pt(BGIn(wires), 3)
HR == Pt(BGIn(wires), 4)
HP == Pt(1, 5)
One(q) == <<[w |-> FOne, q |-> q]>>
Two == <<[w |-> FOne, q |-> Q], [w |-> 3 % P, q |-> Q2]>>

Counting == \A g \in Gates3 : WiringAt(wires, g, Q, HL, HR) = WiringAtDef(wires, g, Q, HL, HR)
Folded == \A g \in Gates3 :
    /\ WiringTable(wires, g, Q, nI) = FoldAll(CountTable(wires, g), Q)
    /\ Eval(WiringTable(wires, g, Q, nI), HL \o HR) = WiringAt(wires, g, Q, HL, HR)
Out(q) == Eval(EvalLayer(wires, V, N), q \o QP)
Identity ==
    /\ ClaimOf(LayerInstance(Layer, V, One(Q), QP)) = Out(Q)
    /\ ClaimOf(LayerInstance(Layer, V, Two, QP)) = FAdd(Out(Q), FMul(3 % P, Out(Q2)))
RECURSIVE BindAll(_, _, _, _)
BindAll(I, hs, k, bG) == IF k > Len(hs) THEN I ELSE BindAll(Bind(I, StageOf(k, bG), hs[k]), hs, k + 1, bG)
Combines ==
    LET I == BindAll(LayerInstance(Layer, V, Two, QP), HL \o HR \o HP, 1, BGIn(wires))
    IN  ClaimOf(I) = LayerCombined(Layer, Two, QP, HL, HR, HP, Eval(V, HL \o HP), Eval(V, HR \o HP))
Chunked == \A k \in 1..2 : EvalLayer(wires, Chunk(V, k, 2), 1) = Chunk(EvalLayer(wires, V, N), k, 2)
================================================================================
