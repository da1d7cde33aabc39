------------------------------- MODULE TraceGadget ------------------------------
(***************************************************************************)
(* Conformance of the gadgets.  A case is a compiled constraint system and   *)
(* witnesses for it: inputs, claimed outputs, and whether the constraint     *)
(* system is satisfied.  It has to be exactly when Gadgets.tla says so.      *)
(*                                                                          *)
(* kind "gate": the forms of a gate: its declared degrees, single and batch  *)
(*   evaluations, and the batch operands afterwards.                        *)
(* kind "ids": gates and their identifiers.                                  *)
(* kind "combine": the combination of the gates of a layer.                  *)
(***************************************************************************)
EXTENDS Gadgets, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, run, outcome
tvars == <<c, run, outcome>>

K == Cases[c]
Say(v, info) == outcome' = v /\ PrintT(<<v, c, info>>)
Decide(ok, info) == Say(IF ok THEN "ACCEPT" ELSE "REJECT", info)

TInit == outcome = "none" /\ run = 1 /\ c \in DOMAIN Cases

Satisfiable(g, w) == GadgetHolds(g, w.in) /\ w.out = GadgetOut(g, w.in)
Witness ==
    /\ K.kind = "gadget" /\ outcome = "none" /\ run <= Len(K.runs)
    /\ LET w == K.runs[run]
       IN  IF w.solved <=> Satisfiable(K.g, w)
           THEN run' = run + 1 /\ UNCHANGED outcome
           ELSE Say("REJECT", <<K.g, "witness", run, "satisfied", w.solved>>) /\ UNCHANGED run
    /\ UNCHANGED c
WitnessesEnd ==
    /\ K.kind = "gadget" /\ outcome = "none" /\ run > Len(K.runs)
    /\ Say("ACCEPT", <<K.g, run - 1>>) /\ UNCHANGED <<c, run>>

\* the batch evaluations are at the same operands as the single ones
GateForms ==
    /\ K.kind = "gate" /\ outcome = "none"
    /\ LET n == Len(K.ls)
           want(l, r) == GateEval(K.gate, l, r)
           single == { i \in 1..n : K.single[i] # want(K.ls[i], K.rs[i]) }
           manyL  == { i \in 1..n : K.manyL[i] # want(K.ls[i], K.rs[1]) }
           manyR  == { i \in 1..n : K.manyR[i] # want(K.ls[1], K.rs[i]) }
           degs   == { d \in 1..3 : K.degs[d] < GateDegrees(K.gate)[d] }
       IN  Decide(/\ single = {} /\ manyL = {} /\ manyR = {} /\ degs = {}
                  /\ K.lsAfter = K.ls /\ K.rsAfter = K.rs
                  /\ Len(K.manyL) = n /\ Len(K.manyR) = n,
                  <<K.gate.k, "single", single, "many left", manyL, "many right", manyR, "degrees", degs>>)
    /\ UNCHANGED <<c, run>>

Identifiers ==
    /\ K.kind = "ids" /\ outcome = "none"
    /\ LET bad == { p \in (DOMAIN K.gates) \X (DOMAIN K.gates) :
                      K.ids[p[1]] = K.ids[p[2]] /\ ~SameGate(K.gates[p[1]], K.gates[p[2]]) }
       IN  Decide(bad = {}, <<"same identifier", bad>>)
    /\ UNCHANGED <<c, run>>

Combination ==
    /\ K.kind = "combine" /\ outcome = "none"
    /\ Decide(K.res = Combined(K.gates, K.statics, K.eq, K.l, K.r), <<"combination of", Len(K.gates)>>)
    /\ UNCHANGED <<c, run>>

TNext == Witness \/ WitnessesEnd \/ GateForms \/ Identifiers \/ Combination
TSpec == TInit /\ [][TNext]_tvars
================================================================================
