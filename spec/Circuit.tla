--------------------------------- MODULE Circuit --------------------------------
(***************************************************************************)
(* Layered circuits (circuit/layers.go, circuit.go).                        *)
(* A layer is [wires |-> Seq([l, r, o: Nat, g: gate])].  A batch of n = 2^bN *)
(* instances of a layer of width 2^bG is the sequence of values v with       *)
(* v[g * n + h + 1] the value g of instance h.                               *)
(***************************************************************************)
EXTENDS Gates

\* the smallest power of two above every operand / output index
BGIn(wires)  == Log2Ceil(1 + MaxOf({0} \cup { wires[w].l : w \in DOMAIN wires }
                                       \cup { wires[w].r : w \in DOMAIN wires }))
BGOut(wires) == Log2Ceil(1 + MaxOf({0} \cup { wires[w].o : w \in DOMAIN wires }))

\* the wires of a layer as a sequence of indices satisfying a predicate on gates
WiresOf(wires, g) == SelectSeq(wires, LAMBDA w : SameGate(w.g, g))

(* ---- evaluation ---- *)
\* value of output o of instance h (0-based), n instances
OutputOf(wires, v, n, o, h) ==
    LET ws == SelectSeq(wires, LAMBDA w : w.o = o)
    IN  Sum([i \in 1..Len(ws) |->
             GateEval(ws[i].g, v[ws[i].l * n + h + 1], v[ws[i].r * n + h + 1])])

EvalLayer(wires, v, n) ==
    TLCEval([x \in 1..(n * Pow2(BGOut(wires))) |-> OutputOf(wires, v, n, (x - 1) \div n, (x - 1) % n)])

RECURSIVE EvalLayers(_, _, _, _)
EvalLayers(layers, v, n, k) ==
    IF k > Len(layers) THEN v ELSE EvalLayers(layers, EvalLayer(layers[k].wires, v, n), n, k + 1)

(* ---- wiring predicates ---- *)
\* the number of wires of gate g from (l, r) to o
WireCount(wires, g, o, l, r) ==
    Len(SelectSeq(wires, LAMBDA w : w.o = o /\ w.l = l /\ w.r = r /\ SameGate(w.g, g)))

\* multilinear extension of WireCount at (q, hL, hR): only the wires contribute
WiringAt(wires, g, q, hL, hR) ==
    LET ws == WiresOf(wires, g)
    IN  Sum([i \in 1..Len(ws) |->
             FMul(EqVertex(q, ws[i].o), FMul(EqVertex(hL, ws[i].l), EqVertex(hR, ws[i].r)))])

\* the same from the definition, over all (o, l, r)
WiringAtDef(wires, g, q, hL, hR) ==
    LET nO == Pow2(Len(q))
        nI == Pow2(Len(hL))
    IN  Sum([x \in 1..(nO * nI * nI) |->
             LET o == (x - 1) \div (nI * nI)
                 l == ((x - 1) \div nI) % nI
                 r == (x - 1) % nI
             IN  FMul(FNat(WireCount(wires, g, o, l, r)),
                      FMul(EqVertex(q, o), FMul(EqVertex(hL, l), EqVertex(hR, r))))])

\* table over (l, r) of the wiring predicate of gate g with outputs folded at q
WiringTable(wires, g, q, nI) ==
    LET ws == WiresOf(wires, g)
        eqs == TLCEval([i \in 1..Len(ws) |-> EqVertex(q, ws[i].o)])
    IN  TLCEval([x \in 1..(nI * nI) |->
         LET l == (x - 1) \div nI
             r == (x - 1) % nI
             hit == { i \in 1..Len(ws) : ws[i].l = l /\ ws[i].r = r }
         IN  IF hit = {} THEN FZero
             ELSE Sum([i \in 1..Len(ws) |-> IF i \in hit THEN eqs[i] ELSE FZero])])

\* the table, over (o, l, r), of the number of wires of gate g
CountTable(wires, g) ==
    LET nI == Pow2(BGIn(wires))
    IN  [x \in 1..(Pow2(BGOut(wires)) * nI * nI) |->
            FNat(WireCount(wires, g, (x - 1) \div (nI * nI), ((x - 1) \div nI) % nI, (x - 1) % nI))]

\* the distinct gates of a layer, as a set of representatives
DistinctGates(wires) == { wires[w].g : w \in DOMAIN wires }
================================================================================
