------------------------------ MODULE SchedCircuit ------------------------------
(***************************************************************************)
(* Circuits with a batch, built wire by wire and layer by layer, to be       *)
(* evaluated and proved by the code: all layers of up to MaxWires wires on   *)
(* widths up to Width, followed by layers that agree with them.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxLayers, MaxWires, Width, MaxBN, GateNames,
          Ordered     \* the order of the wires of a layer does not matter: only one is built

VARIABLES layers,     \* complete layers, from the inputs on
          cur,        \* the wires of the one being built
          bn, nchunks, ncore, done
vars == <<layers, cur, bn, nchunks, ncore, done>>

Pow2Up(n) == CHOOSE k \in {1, 2, 4, 8} : k >= n /\ \A j \in {1, 2, 4, 8} : j >= n => j >= k
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
InW(ws)  == Pow2Up(1 + MaxOf({ ws[i].l : i \in DOMAIN ws } \cup { ws[i].r : i \in DOMAIN ws }))
OutW(ws) == Pow2Up(1 + MaxOf({ ws[i].o : i \in DOMAIN ws }))

Wires == [l : 0..(Width - 1), r : 0..(Width - 1), o : 0..(Width - 1), g : GateNames]
Code(w) == (w.l * Width + w.r) * Width + w.o       \* wires are added in this order

Init == /\ layers = <<>> /\ cur = <<>> /\ done = FALSE
        /\ bn \in 0..MaxBN
        /\ nchunks \in {1, 2, 4, 8} /\ nchunks <= 2 ^ bn
        /\ ncore \in {1, 2, nchunks + 1}

Wire == /\ ~done /\ Len(cur) < MaxWires
        /\ \E w \in Wires :
              /\ (IF cur = <<>> \/ ~Ordered THEN TRUE ELSE Code(cur[Len(cur)]) <= Code(w))
              /\ cur' = Append(cur, w)
        /\ UNCHANGED <<layers, bn, nchunks, ncore, done>>

Fits == IF layers = <<>> THEN TRUE ELSE OutW(layers[Len(layers)]) = InW(cur)
Close == /\ ~done /\ cur # <<>> /\ Fits
         /\ layers' = Append(layers, cur)
         /\ cur' = <<>>
         /\ UNCHANGED <<bn, nchunks, ncore, done>>

Emit == /\ ~done /\ cur = <<>> /\ layers # <<>>
        /\ done' = TRUE
        /\ PrintT(<<"SCEN", ToJson([layers |-> layers, bn |-> bn, nchunks |-> nchunks, ncore |-> ncore])>>)
        /\ UNCHANGED <<layers, cur, bn, nchunks, ncore>>

Next == (Len(layers) < MaxLayers /\ (Wire \/ Close)) \/ Emit
Spec == Init /\ [][Next]_vars

\* the widths of neighbouring layers agree
Agree == \A k \in 1..(Len(layers) - 1) : OutW(layers[k]) = InW(layers[k + 1])
================================================================================
