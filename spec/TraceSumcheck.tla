------------------------------ MODULE TraceSumcheck ------------------------------
(***************************************************************************)
(* Conformance of the sumcheck provers and of the sumcheck verifier.        *)
(*                                                                          *)
(* kind "sumprove": an instance, the claim, the round polynomials, the       *)
(*   challenges the variables were bound to and the final claims of one run *)
(*   of a prover; checked by the actions of SumcheckProver.                 *)
(* kind "sumverify": a claim, a sequence of polynomials, the challenge that  *)
(*   answers each of them, and what the verifier returned; checked by the   *)
(*   actions of SumcheckVerifier.                                           *)
(* kind "summt": the run of the single-threaded prover and the runs of the   *)
(*   multi-threaded one on the chunked tables.                              *)
(***************************************************************************)
EXTENDS SumcheckDefs, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)

VARIABLES c, inst, round, nbRounds, nbG, running, ppc, expected, hs, vpc, outcome
pvars == <<inst, round, nbRounds, nbG, running, ppc>>
svars == <<expected, hs, vpc>>
tvars == <<c, inst, round, nbRounds, nbG, running, ppc, expected, hs, vpc, outcome>>

SP == INSTANCE SumcheckProver
SV == INSTANCE SumcheckVerifier

K == Cases[c]
Say(v, info) == outcome' = v /\ PrintT(<<v, c, info>>)

NoProver   == inst = <<>> /\ round = 0 /\ nbRounds = 0 /\ nbG = 0 /\ running = FZero /\ ppc = "none"
NoVerifier == expected = FZero /\ hs = <<>> /\ vpc = "none"

TInit ==
    /\ outcome = "none"
    /\ \E cc \in DOMAIN Cases :
        /\ c = cc
        /\ CASE Cases[cc].kind = "sumprove"  -> SP!PInit(Cases[cc].inst) /\ NoVerifier
             [] Cases[cc].kind = "sumverify" -> SV!SVInit(Cases[cc].claim) /\ NoProver
             [] Cases[cc].kind = "summt"     -> NoProver /\ NoVerifier

(* ---- prover ---- *)
StartsRight == /\ Len(K.polys) = nbRounds
               /\ Len(K.qL) = nbG /\ Len(K.qR) = nbG /\ Len(K.qP) = nbRounds - 2 * nbG
               /\ K.claim = running
QAll == K.qL \o K.qR \o K.qP
ProverStart ==
    /\ K.kind = "sumprove" /\ outcome = "none" /\ round = 1 /\ ~StartsRight
    /\ Say("REJECT", <<"claim or layout">>)
    /\ UNCHANGED <<c, pvars, svars>>
ProverRound ==
    /\ K.kind = "sumprove" /\ outcome = "none" /\ ppc = "rounds"
    /\ round > 1 \/ StartsRight
    /\ IF IsRoundPoly(inst, StageOf(round, nbG), K.polys[round])
       THEN SP!PRound(K.polys[round], QAll[round]) /\ UNCHANGED outcome
       ELSE Say("REJECT", <<"round polynomial", round>>) /\ UNCHANGED pvars
    /\ UNCHANGED <<c, svars>>
ProverReveal ==
    /\ K.kind = "sumprove" /\ outcome = "none" /\ ppc = "reveal"
    /\ nbRounds > 0 \/ StartsRight
    /\ IF K.fin = FinalClaims(inst)
       THEN SP!PReveal(K.fin) /\ Say("ACCEPT", <<>>)
       ELSE Say("REJECT", <<"final claims">>) /\ UNCHANGED pvars
    /\ UNCHANGED <<c, svars>>

(* ---- verifier ---- *)
VerifierRound ==
    /\ K.kind = "sumverify" /\ vpc = "checking" /\ Len(hs) < Len(K.polys)
    /\ \/ SV!SVRound(K.polys[Len(hs) + 1], K.chal[Len(hs) + 1])
       \/ SV!SVReject(K.polys[Len(hs) + 1])
    /\ UNCHANGED <<c, pvars, outcome>>
VerifierAccept ==
    /\ K.kind = "sumverify" /\ Len(hs) = Len(K.polys)
    /\ SV!SVAccept
    /\ UNCHANGED <<c, pvars, outcome>>
VerifierEnd ==
    /\ K.kind = "sumverify" /\ vpc \in {"accepted", "rejected"} /\ outcome = "none"
    /\ LET ok == /\ K.verdict <=> vpc = "accepted"
                 /\ vpc = "accepted" =>
                       /\ K.qL = SV!PointL(K.bg) /\ K.qR = SV!PointR(K.bg) /\ K.qP = SV!PointH(K.bg)
                       /\ K.last = expected
       IN  Say(IF ok THEN "ACCEPT" ELSE "REJECT", <<vpc, Len(hs)>>)
    /\ UNCHANGED <<c, pvars, svars>>

(* ---- multi-threaded prover ---- *)
SameRun(a, b) == /\ a.claim = b.claim /\ a.polys = b.polys /\ a.fin = b.fin
                 /\ a.qL = b.qL /\ a.qR = b.qR /\ a.qP = b.qP
Multi ==
    /\ K.kind = "summt" /\ outcome = "none"
    /\ LET bad == { i \in 1..Len(K.mt) : ~SameRun(K.mt[i], K.st) }
       IN  IF bad = {} THEN Say("ACCEPT", <<>>) ELSE Say("REJECT", <<"runs", bad>>)
    /\ UNCHANGED <<c, pvars, svars>>

TNext == ProverStart \/ ProverRound \/ ProverReveal \/ VerifierRound \/ VerifierAccept \/ VerifierEnd \/ Multi
TSpec == TInit /\ [][TNext]_tvars

================================================================================
