-------------------------------- MODULE GkrLayout --------------------------------
(***************************************************************************)
(* How many of what a proof and a batch contain.                            *)
(***************************************************************************)
EXTENDS GkrStatement

BGof(cc, k) == BGIn(LayerOf(cc, k).wires)
RoundsOf(cc, k) == 2 * BGof(cc, k) + BNOf(cc)

(***************************************************************************)
(* The layout of a proof of statement cc: polys[k][i] the number of         *)
(* coefficients of the i-th polynomial of layer k; nL, nR numbers of claims. *)
(***************************************************************************)
MaxDeg(cc, k, which) == MaxOf({0} \cup { LayerOf(cc, k).degs[g][which] : g \in 1..Len(LayerOf(cc, k).gates) })
PolyLen(cc, k, i) ==
    CASE StageOf(i, BGof(cc, k)) = "L" -> MaxDeg(cc, k, 1) + 2
      [] StageOf(i, BGof(cc, k)) = "R" -> MaxDeg(cc, k, 2) + 2
      [] StageOf(i, BGof(cc, k)) = "H" -> MaxDeg(cc, k, 3) + 2

WellFormed(cc, polys, nbLeft, nbRight) ==
    /\ Len(polys) = NbLayers(cc)
    /\ nbLeft = NbLayers(cc)
    /\ nbRight = NbLayers(cc)
    /\ \A k \in 1..NbLayers(cc) :
          /\ Len(polys[k]) = RoundsOf(cc, k)
          /\ \A i \in 1..Len(polys[k]) : polys[k][i] = PolyLen(cc, k, i)

(***************************************************************************)
(* The layout of a batch: chunks[k] the number of values in chunk k.  All    *)
(* chunks are of one size and together hold 2^n values.                      *)
(***************************************************************************)
BatchOf(chunks, n) ==
    /\ Len(chunks) > 0
    /\ \A k \in 1..Len(chunks) : chunks[k] = chunks[1]
    /\ Len(chunks) * chunks[1] = 2^n
InputsWellSized(cc, chunks)  == BatchOf(chunks, BNOf(cc) + BGof(cc, 1))
OutputsWellSized(cc, chunks) == BatchOf(chunks, BNOf(cc) + BGOut(LayerOf(cc, NbLayers(cc)).wires))
==================================================================================
