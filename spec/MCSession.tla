-------------------------------- MODULE MCSession -------------------------------
(***************************************************************************)
(* How the provers come to leave the assignment alone: they fold copies.     *)
(* Users prove at the same time, layer after layer, with one assignment.     *)
(* For each layer a user obtains tables (a copy, or with Copies = FALSE the  *)
(* assignment's own), folds them in place one cell at a time, and reads the  *)
(* claim off the first cell.  With copies, the shared assignment never       *)
(* changes and every user obtains the claims it obtains alone.               *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS NbUsers, NbLayers, Size, Copies, M
Users == 1..NbUsers
VARIABLES shared,   \* shared[l]: values of layer l
          work,     \* work[u]: tables of user u, <<>> if none; only used with Copies
          layer, len, pos, upc, claims, runs
vars == <<shared, work, layer, len, pos, upc, claims, runs>>
Start == [l \in 1..NbLayers |-> [x \in 1..Size |-> (l * x * x + x) % M]]
\* substitution of 2 for the first variable
RECURSIVE Folded(_)
Folded(t) == IF Len(t) = 1 THEN t[1]
             ELSE Folded([x \in 1..(Len(t) \div 2) |-> (t[x] + 2 * (M + t[x + Len(t) \div 2] - t[x])) % M])
Init == /\ shared = Start
        /\ work = [u \in Users |-> <<>>]
        /\ layer = [u \in Users |-> NbLayers] /\ len = [u \in Users |-> Size] /\ pos = [u \in Users |-> 1]
        /\ upc = [u \in Users |-> "take"] /\ claims = [u \in Users |-> <<>>] /\ runs = [u \in Users |-> 0]
Table(u) == IF Copies THEN work[u] ELSE shared[layer[u]]
Take(u) == /\ upc[u] = "take"
           /\ work' = IF Copies THEN [work EXCEPT ![u] = shared[layer[u]]] ELSE work
           /\ len' = [len EXCEPT ![u] = Size] /\ pos' = [pos EXCEPT ![u] = 1]
           /\ upc' = [upc EXCEPT ![u] = "fold"]
           /\ UNCHANGED <<shared, layer, claims, runs>>
FoldCell(u) ==
    /\ upc[u] = "fold" /\ len[u] > 1
    /\ LET half == len[u] \div 2
           t == Table(u)
           v == (t[pos[u]] + 2 * (M + t[pos[u] + half] - t[pos[u]])) % M
       IN  /\ IF Copies THEN work' = [work EXCEPT ![u][pos[u]] = v] /\ UNCHANGED shared
              ELSE shared' = [shared EXCEPT ![layer[u]][pos[u]] = v] /\ UNCHANGED work
           /\ IF pos[u] = half THEN len' = [len EXCEPT ![u] = half] /\ pos' = [pos EXCEPT ![u] = 1]
              ELSE pos' = [pos EXCEPT ![u] = @ + 1] /\ UNCHANGED len
    /\ UNCHANGED <<layer, upc, claims, runs>>
Claim(u) ==
    /\ upc[u] = "fold" /\ len[u] = 1
    /\ claims' = [claims EXCEPT ![u] = Append(@, Table(u)[1])]
    /\ work' = [work EXCEPT ![u] = <<>>]
    /\ IF layer[u] > 1 THEN layer' = [layer EXCEPT ![u] = @ - 1] /\ upc' = [upc EXCEPT ![u] = "take"]
       ELSE upc' = [upc EXCEPT ![u] = "done"] /\ UNCHANGED layer
    /\ UNCHANGED <<shared, len, pos, runs>>
Again(u) ==
    /\ upc[u] = "done" /\ runs[u] = 0
    /\ runs' = [runs EXCEPT ![u] = 1]
    /\ layer' = [layer EXCEPT ![u] = NbLayers] /\ upc' = [upc EXCEPT ![u] = "take"]
    /\ claims' = [claims EXCEPT ![u] = <<>>]
    /\ UNCHANGED <<shared, work, len, pos>>
Next == \E u \in Users : Take(u) \/ FoldCell(u) \/ Claim(u) \/ Again(u)
Spec == Init /\ [][Next]_vars
Untouched == shared = Start
SameAsAlone == \A u \in Users : upc[u] = "done" =>
                  claims[u] = [k \in 1..NbLayers |-> Folded(Start[NbLayers + 1 - k])]
================================================================================
