--------------------------------- MODULE Session --------------------------------
(***************************************************************************)
(* A user of the library: objects (circuit, inputs, assignments, proofs) and *)
(* calls on them.  Calls may create objects; they never change one, and the  *)
(* same call on the same objects gives the same result, whatever was called  *)
(* before, and whatever is being called at the same time by others.          *)
(***************************************************************************)
EXTENDS Sequences, FiniteSets, Naturals
VARIABLES heap,     \* [circuit, inputs: Seq, assignments: Seq, proofs: Seq]; the last two say of which batch
          memo      \* set of <<call, result>>
sessvars == <<heap, memo>>

\* the objects of h are still there in g, unchanged
Extends(g, h) ==
    /\ g.circuit = h.circuit /\ g.inputs = h.inputs
    /\ \A f \in {"assignments", "proofs"} :
          /\ Len(g[f]) >= Len(h[f])
          /\ SubSeq(g[f], 1, Len(h[f])) = h[f]
\* what a call created is its result
CreatedBy(g, h, call, res) ==
    /\ \A i \in (Len(h.assignments) + 1)..Len(g.assignments) :
          call = <<"assign", g.assignments[i].of>> /\ g.assignments[i].val = res
    /\ \A i \in (Len(h.proofs) + 1)..Len(g.proofs) :
          call = <<"prove", g.proofs[i].of>> /\ g.proofs[i].val = res

Consistent(call, res) == \A m \in memo : m[1] = call => m[2] = res
\* an honest proof is accepted every time, with the batch it proves
Expected(call, res) == call[1] = "verify" /\ call[2] = call[3] => res = TRUE

SeInit(h) == heap = h /\ memo = { <<<<"assign", h.assignments[i].of>>, h.assignments[i].val>> : i \in DOMAIN h.assignments }
                                 \cup { <<<<"prove", h.proofs[i].of>>, h.proofs[i].val>> : i \in DOMAIN h.proofs }
SeCall(call, res, g) ==
    /\ Consistent(call, res) /\ Expected(call, res)
    /\ Extends(g, heap) /\ CreatedBy(g, heap, call, res)
    /\ heap' = g
    /\ memo' = memo \cup { <<call, res>> }
================================================================================
