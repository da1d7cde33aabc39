-------------------------------- MODULE TraceGkr --------------------------------
(***************************************************************************)
(* Conformance of gkr.Prover / gkr.Verifier with GkrVerifier.tla.           *)
(* Each case is a statement, a proof and the verdict of the code.  The      *)
(* messages of the proof are consumed one by one by the actions of          *)
(* GkrVerifier; the case is accepted by Judge at the end.                   *)
(***************************************************************************)
EXTENDS GkrVerifier, TLC, Json, IOUtils

CONSTANT Challenge(_)

Cases == ndJsonDeserialize(IOEnv.CASES)

VARIABLES outcome
tvars == <<c, layer, srcs, qPrime, claim, chals, gpc, outcome>>

TrNbLayers(cc) == Len(Cases[cc].layers)
TrLayerOf(cc, k) == Cases[cc].layers[k]
TrBNOf(cc) == Cases[cc].bn

Proof == Cases[c].proof
Poly  == Proof.polys[layer][Len(chals) + 1]

ProofShape(cc) ==
    LET P == Cases[cc].proof.polys
    IN  [k \in 1..Len(P) |-> [i \in 1..Len(P[k]) |-> Len(P[k][i])]]

ChunkSizes(x) == [k \in 1..Len(x) |-> Len(x[k])]

OutBG(cc) == BGOut(TrLayerOf(cc, TrNbLayers(cc)).wires)

\* The public initial point.  A statement either records the one the code announces
\* or is judged against the one pinned here (known finding C03).
PinnedPoint(n) == [i \in 1..n |-> FNat(i)]
InitQ(cc)  == IF "q" \in DOMAIN Cases[cc] THEN Cases[cc].q ELSE PinnedPoint(OutBG(cc))
InitQP(cc) == IF "qp" \in DOMAIN Cases[cc] THEN Cases[cc].qp ELSE PinnedPoint(Cases[cc].bn)

TInit ==
    /\ outcome = "none"
    /\ \E cc \in DOMAIN Cases :
          /\ Cases[cc].kind = "gkr"
          /\ IF /\ WellFormed(cc, ProofShape(cc), Len(Cases[cc].proof.left), Len(Cases[cc].proof.right))
                /\ InputsWellSized(cc, ChunkSizes(Cases[cc].inputs))
                /\ OutputsWellSized(cc, ChunkSizes(Cases[cc].outputs))
             THEN GInit(cc, InitQ(cc), InitQP(cc), Unchunk(Cases[cc].outputs))
             ELSE GInitMalformed(cc)

TRound == GRound(Poly, Challenge(Poly)) /\ UNCHANGED outcome
TBadRound == gpc = "round" /\ GBadRound(Poly) /\ UNCHANGED outcome
TClose ==
    /\ gpc = "close" /\ layer > 1
    /\ GClose(Proof.left[layer], Proof.right[layer],
              Challenge(<<Proof.left[layer], Proof.right[layer]>>))
    /\ UNCHANGED outcome
TCloseLast == gpc = "close" /\ GCloseLast(Proof.left[layer], Proof.right[layer]) /\ UNCHANGED outcome
TBadClose == gpc = "close" /\ GBadClose(Proof.left[layer], Proof.right[layer]) /\ UNCHANGED outcome
TFinal == gpc = "final" /\ GFinal(Unchunk(Cases[c].inputs), Proof.left[1], Proof.right[1]) /\ UNCHANGED outcome
TBadFinal == gpc = "final" /\ GBadFinal(Unchunk(Cases[c].inputs), Proof.left[1], Proof.right[1]) /\ UNCHANGED outcome

Verdict == Cases[c].verdict
\* what the code's verdict may be, given the specification's
Judge ==
    CASE Cases[c].judge = "complete" -> IF Verdict THEN "ACCEPT" ELSE "REJECT"
      [] Cases[c].judge \in {"sound", "layout"}    -> IF Verdict => gpc = "accepted" THEN "ACCEPT" ELSE "REJECT"
      [] Cases[c].judge = "exact"    -> IF Verdict <=> gpc = "accepted" THEN "ACCEPT" ELSE "REJECT"
      [] Cases[c].judge = "binding"  -> IF ~Verdict THEN "ACCEPT"
                                        ELSE IF gpc = "accepted" THEN "KNOWN" ELSE "REJECT"

TEnd ==
    /\ gpc \in {"accepted", "rejected"}
    /\ outcome = "none"
    /\ outcome' = Judge
    /\ PrintT(<<Judge, c, gpc, layer, Len(chals)>>)
    /\ UNCHANGED gvars

TNext == TRound \/ TBadRound \/ TClose \/ TCloseLast \/ TBadClose \/ TFinal \/ TBadFinal \/ TEnd

TSpec == TInit /\ [][TNext]_tvars
================================================================================
