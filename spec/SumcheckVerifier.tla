---------------------------- MODULE SumcheckVerifier ----------------------------
(***************************************************************************)
(* The sumcheck verifier (sumcheck/verifier.go): one step per polynomial.   *)
(***************************************************************************)
EXTENDS Poly

VARIABLES expected,   \* what the next polynomial has to sum to
          hs,         \* challenges so far
          vpc         \* "checking", "accepted", "rejected"
svars == <<expected, hs, vpc>>

SVInit(claim) == expected = claim /\ hs = <<>> /\ vpc = "checking"

SVRound(cs, r) ==
    /\ vpc = "checking"
    /\ AtZeroAndOne(cs) = expected
    /\ expected' = UniEval(cs, r)
    /\ hs' = Append(hs, r)
    /\ UNCHANGED vpc

SVReject(cs) ==
    /\ vpc = "checking"
    /\ AtZeroAndOne(cs) # expected
    /\ vpc' = "rejected"
    /\ UNCHANGED <<expected, hs>>

SVAccept ==
    /\ vpc = "checking"
    /\ vpc' = "accepted"
    /\ UNCHANGED <<expected, hs>>

\* how the challenges are handed out
PointL(bG)  == SubSeq(hs, 1, bG)
PointR(bG)  == SubSeq(hs, bG + 1, 2 * bG)
PointH(bG)  == SubSeq(hs, 2 * bG + 1, Len(hs))
================================================================================
