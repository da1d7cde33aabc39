--------------------------------- MODULE Gadgets --------------------------------
(***************************************************************************)
(* What the in-circuit gadgets (package snark) have to constrain: for each   *)
(* gadget and inputs, whether a witness may exist at all (GadgetHolds) and   *)
(* the only outputs a witness may have (GadgetOut).                          *)
(***************************************************************************)
EXTENDS SumcheckDefs, TLC, SequencesExt

CONSTANT Challenge(_)

\* the sumcheck gadget: the running claim and the challenges after the first k polynomials
SumStep(st, p) ==
    LET r == Challenge(p)
    IN  TLCEval([ok |-> st.ok /\ AtZeroAndOne(p) = st.claim, claim |-> UniEval(p, r), hs |-> Append(st.hs, r)])
SumRun(in) == FoldLeft(SumStep, [ok |-> TRUE, claim |-> in.claim, hs |-> <<>>], in.polys)

GadgetHolds(g, in) == IF g = "sumcheck" THEN SumRun(in).ok ELSE TRUE

GadgetOut(g, in) ==
    CASE g = "hash"     -> <<Challenge(in.msg)>>
      [] g = "ueq"      -> <<Eq1(in.q[1], in.h[1])>>
      [] g = "eq"       -> <<EqEval(in.q, in.h)>>
      \* evaluating and copying leave the table as it is
      [] g = "mleval"   -> <<Eval(in.tab, in.pt)>> \o in.tab
      [] g = "mlmixed"  -> <<Eval(in.tab, in.hl \o in.hp), Eval(in.tab, in.hr \o in.hp)>> \o in.tab
      [] g = "mlfold"   -> Fold(in.tab, in.x) \o in.tab
      [] g = "chunks"   -> Unchunk(in.chunks)
      [] g = "unieval"  -> <<UniEval(in.cs, in.x)>>
      [] g = "zeroone"  -> <<AtZeroAndOne(in.cs)>>
      [] g = "sumcheck" -> LET s == SumRun(in) IN s.hs \o <<s.claim>>
      [] g = "gate"     -> <<GateEval(in.gate, in.l, in.r)>>
      [] g = "static"   -> WiringTable(in.wires, in.gate, in.q, in.ni)
      [] g = "combine"  -> <<LayerCombined(in.layer, in.srcs, in.qp, in.hl, in.hr, in.hp, in.l, in.r)>>
================================================================================
