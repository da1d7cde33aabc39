------------------------------ MODULE TraceCircuit ------------------------------
(***************************************************************************)
(* Conformance of package circuit and of the MiMC proving circuit.          *)
(*                                                                          *)
(* kind "eval": a circuit, the inputs of n instances, and evaluations of it   *)
(*   under several chunkings (interleaved, or any split of the instances) and *)
(*   core counts with all intermediate values; the machine computes one layer *)
(*   per step and compares it with all of them.                              *)
(* kind "mimc": keys and states, and what evaluating the proving circuit on  *)
(*   them gave; one step per instance.                                       *)
(* kind "layer": a layer as a list of wires, and the widths, gates and       *)
(*   wiring tables the code derives from it.                                 *)
(***************************************************************************)
EXTENDS Mimc91, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, k, v, outcome
tvars == <<c, k, v, outcome>>

K == Cases[c]
Say(x, info) == outcome' = x /\ PrintT(<<x, c, info>>)

TInit == /\ outcome = "none" /\ c \in DOMAIN Cases /\ k = 0
         /\ v = IF Cases[c].kind = "eval" THEN Cases[c].inputs ELSE <<>>

(* ---- evaluation ---- *)
\* the chunks of run r that hold layer k
Held(r) == K.runs[r].values[k + 1]
\* the values of the instances hs of v, in that order
Instances(hs) ==
    LET w == Len(v) \div K.n
    IN  [x \in 1..(w * Len(hs)) |-> v[((x - 1) \div Len(hs)) * K.n + hs[((x - 1) % Len(hs)) + 1] + 1]]
\* they are the interleaved chunks of v, or those of the instances the run handed out to each chunk
Agrees(r) == /\ Len(Held(r)) = K.runs[r].chunks
             /\ \A i \in 1..Len(Held(r)) :
                    Held(r)[i] = IF K.runs[r].split = <<>> THEN Chunk(v, i, Len(Held(r)))
                                 ELSE Instances(K.runs[r].split[i])
Compare ==
    LET bad == { r \in DOMAIN K.runs : ~(Len(K.runs[r].values) = Len(K.layers) + 1 /\ Agrees(r)) }
    IN  IF bad # {} THEN Say("REJECT", <<"layer", k, "runs", bad>>)
        ELSE IF k = Len(K.layers) THEN Say("ACCEPT", k) ELSE UNCHANGED outcome
EvalStep ==
    /\ K.kind = "eval" /\ outcome = "none"
    /\ Compare
    /\ IF k < Len(K.layers)
       THEN k' = k + 1 /\ v' = TLCEval(EvalLayer(K.layers[k + 1].wires, v, K.n))
       ELSE UNCHANGED <<k, v>>
    /\ UNCHANGED c

(* ---- MiMC ---- *)
MimcInstance ==
    /\ K.kind = "mimc" /\ outcome = "none" /\ k < Len(K.keys)
    /\ LET key == K.keys[k + 1]
           st  == K.states[k + 1]
           out == K.outputs[k + 1]
           ok  == out = FAdd(MimcPerm(st, key), key) /\ FAdd(out, st) = MimcUpdate(st, key)
                  /\ K.updates[k + 1] = MimcUpdate(st, key)
       IN  IF ok THEN k' = k + 1 /\ UNCHANGED outcome
           ELSE Say("REJECT", <<"instance", k>>) /\ UNCHANGED k
    /\ UNCHANGED <<c, v>>
MimcEnd == /\ K.kind = "mimc" /\ outcome = "none" /\ k = Len(K.keys)
           /\ IF Len(K.outputs) = k THEN Say("ACCEPT", k) ELSE Say("REJECT", <<"outputs", Len(K.outputs)>>)
           /\ UNCHANGED <<c, k, v>>

(* ---- layers ---- *)
GatesRight == /\ Len(K.gates) = Cardinality(DistinctGates(K.wires))
              /\ RangeOf(K.gates) = DistinctGates(K.wires)
WidthsRight == K.bgin = BGIn(K.wires) /\ K.bgout = BGOut(K.wires)
\* tables[i] has to be the table of gates[i], with the outputs folded at the point q
TableRight(t, i) == K.tables[t].tabs[i] = FoldAll(CountTable(K.wires, K.gates[i]), K.tables[t].q)
Layer ==
    /\ K.kind = "layer" /\ outcome = "none"
    /\ LET bad == { p \in (DOMAIN K.tables) \X (DOMAIN K.gates) : ~TableRight(p[1], p[2]) }
           ill == { t \in DOMAIN K.tables : Len(K.tables[t].tabs) # Len(K.gates) }
       IN  IF ~GatesRight THEN Say("REJECT", <<"gates">>)
           ELSE IF ~WidthsRight THEN Say("REJECT", <<"widths", K.bgin, K.bgout>>)
           ELSE IF ill # {} THEN Say("REJECT", <<"number of tables", ill>>)
           ELSE IF bad # {} THEN Say("REJECT", <<"tables", bad>>)
           ELSE Say("ACCEPT", Len(K.gates))
    /\ UNCHANGED <<c, k, v>>

TNext == EvalStep \/ MimcInstance \/ MimcEnd \/ Layer
TSpec == TInit /\ [][TNext]_tvars
================================================================================
