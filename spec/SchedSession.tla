------------------------------ MODULE SchedSession ------------------------------
(***************************************************************************)
(* Sequences of calls for sessions: every ordered choice of three calls out  *)
(* of NbOps, the last of which repeats an earlier one.                       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANT NbOps
VARIABLE ops
Init == ops = <<>>
Add == Len(ops) < 3 /\ \E k \in 0..(NbOps - 1) : ops' = Append(ops, k)
Repeat == Len(ops) = 3 /\ \E k \in 1..3 : ops' = ops \o <<ops[k], ops[1]>>
Next == Add \/ (Repeat /\ PrintT(<<"SCEN", ToJson([ops |-> ops'])>>))
Spec == Init /\ [][Next]_ops
================================================================================
