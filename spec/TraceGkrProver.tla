----------------------------- MODULE TraceGkrProver -----------------------------
(***************************************************************************)
(* Conformance of gkr.Prover with GkrProver.tla.  A case (kind "gkrprove")   *)
(* is a circuit, a batch and its proof, whose messages are sent one by one    *)
(* by the actions of GkrProver; and the proofs of the same batch for other   *)
(* chunkings and numbers of cores, which have to be the same.                *)
(* In a case with skip = TRUE the batch is too large for that; only the       *)
(* proofs are compared.                                                      *)
(***************************************************************************)
EXTENDS GkrProver, TLC, Json, IOUtils

CONSTANT Challenge(_)

Cases == ndJsonDeserialize(IOEnv.CASES)

VARIABLES c, outcome
tvars == <<c, stmt, levels, at, work, bound, point, sums, gppc, outcome>>

TrNbLayers(cc) == Len(Cases[cc].layers)
TrLayerOf(cc, k) == Cases[cc].layers[k]
TrBNOf(cc) == Cases[cc].bn

K == Cases[c]
P == K.proof

\* as many messages as there are rounds and layers
RightLayout(cc) ==
    LET X == Cases[cc].proof IN
    /\ Len(X.polys) = TrNbLayers(cc) /\ Len(X.left) = TrNbLayers(cc) /\ Len(X.right) = TrNbLayers(cc)
    /\ \A k \in 1..TrNbLayers(cc) : Len(X.polys[k]) = GpRounds(cc, k)

TInit ==
    /\ outcome = "none"
    /\ c \in DOMAIN Cases
    /\ IF Cases[c].skip \/ ~RightLayout(c)
       THEN /\ stmt = c /\ levels = <<>> /\ at = 0 /\ work = <<>> /\ bound = <<>> /\ point = <<>> /\ sums = FZero
            /\ gppc = IF RightLayout(c) THEN "done" ELSE "layout"
       ELSE GpInit(c, Unchunk(Cases[c].inputs), Cases[c].q, Cases[c].qp)

Say(v, info) == outcome' = v /\ PrintT(<<v, c, info>>)

Poly == P.polys[at][Len(bound) + 1]
Send ==
    /\ outcome = "none" /\ gppc = "rounds"
    /\ IF IsRoundPoly(work, GpStage, Poly)
       THEN GpSend(Poly, Challenge(Poly)) /\ UNCHANGED outcome
       ELSE Say("REJECT", <<"round polynomial", at, Len(bound) + 1>>) /\ UNCHANGED gpvars
    /\ UNCHANGED c
Claim ==
    /\ outcome = "none" /\ gppc = "claims"
    /\ IF P.left[at] = work.vL[1] /\ P.right[at] = work.vR[1]
       THEN GpClaim(P.left[at], P.right[at]) /\ UNCHANGED outcome
       ELSE Say("REJECT", <<"claims", at>>) /\ UNCHANGED gpvars
    /\ UNCHANGED c
Merge == outcome = "none" /\ GpMerge(Challenge(<<P.left[at], P.right[at]>>)) /\ UNCHANGED <<c, outcome>>
Wrong == outcome = "none" /\ gppc = "layout" /\ Say("REJECT", <<"layout">>) /\ UNCHANGED <<c, gpvars>>
End ==
    /\ outcome = "none" /\ gppc = "done"
    /\ LET bad == { i \in DOMAIN K.others : K.others[i] # P }
       IN  Say(IF bad = {} THEN "ACCEPT" ELSE "REJECT", <<"other proofs", bad>>)
    /\ UNCHANGED <<c, gpvars>>

TNext == Send \/ Claim \/ Merge \/ Wrong \/ End
TSpec == TInit /\ [][TNext]_tvars
================================================================================
