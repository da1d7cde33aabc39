------------------------------- MODULE SchedPool --------------------------------
(***************************************************************************)
(* Schedules of WorkPool, to be imposed on the code: hist is the order in   *)
(* which workers take tokens (w) and give them back (-w).                   *)
(***************************************************************************)
EXTENDS WorkPool, Integers, Sequences, TLC, Json
VARIABLE hist
SInit == Init /\ hist = <<>>
\* workers are interchangeable: they appear in the order of their first step
Fresh(w) == \A x \in Workers : x < w => \E i \in DOMAIN hist : hist[i] = x
SNext == \/ \E w \in Workers : Acquire(w) /\ Fresh(w) /\ hist' = Append(hist, w)
         \/ \E w \in Workers : Release(w) /\ hist' = Append(hist, 0 - w)
         \* the other steps are internal: taken at once, in a fixed order
         \/ LET c == { w \in Workers : ENABLED Compute(w) }
            IN  c # {} /\ Compute(CHOOSE w \in c : \A x \in c : w <= x) /\ UNCHANGED hist
         \/ LET c == { w \in Workers : ENABLED End(w) }
            IN  c # {} /\ End(CHOOSE w \in c : \A x \in c : w <= x) /\ UNCHANGED hist
         \/ Return /\ UNCHANGED hist
            /\ PrintT(<<"SCEN", ToJson([chunks |-> NbWorkers, cores |-> NbCores, bursts |-> NbBursts, sched |-> hist])>>)
SSpec == SInit /\ [][SNext]_<<vars, hist>>
================================================================================
