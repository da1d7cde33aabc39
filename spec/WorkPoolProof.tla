------------------------------ MODULE WorkPoolProof ------------------------------
(***************************************************************************)
(* What WorkPool guarantees, proved for every number of workers, cores and   *)
(* bursts (TLC checks it, and the liveness, for small ones).                *)
(***************************************************************************)
EXTENDS WorkPool, FiniteSetTheorems, TLAPS

ASSUME Consts == /\ NbWorkers \in Nat /\ NbCores \in Nat \ {0} /\ NbBursts \in Nat \ {0}
                 /\ Barrier \in BOOLEAN /\ Closes \in BOOLEAN /\ Gated \in BOOLEAN
                 /\ EndFirst = FALSE
                 /\ (Gated => NbBursts = 1)

Held == { w \in Workers : wpc[w] \in {"compute", "computed"} }

TypeOK == /\ wpc \in [Workers -> {"unborn", "idle", "compute", "computed", "over", "gone"}]
          /\ burst \in [Workers -> 0..NbBursts]
          /\ tokens \in Nat /\ closed \in BOOLEAN /\ started \in 0..NbWorkers /\ mpc \in {"busy", "returned"}

Inv == /\ TypeOK
       /\ tokens + Cardinality(Held) = NbCores
       /\ mpc = "returned" => \A w \in Workers : wpc[w] = "gone"
       /\ closed => mpc = "returned"
       /\ \A w \in Workers : /\ wpc[w] \in {"over", "gone"} => burst[w] = NbBursts
                             /\ wpc[w] = "compute" => burst[w] < NbBursts
                             /\ wpc[w] = "unborn" => w > started /\ burst[w] = 0 /\ Gated
                             /\ w > started => wpc[w] = "unborn"

LEMMA Fin == IsFiniteSet(Workers) /\ IsFiniteSet(Held) /\ Cardinality(Held) \in Nat
<1>1. NbWorkers \in Int /\ 1 \in Int BY Consts
<1>2. IsFiniteSet(Workers) BY <1>1, FS_Interval DEF Workers
<1>3. Held \subseteq Workers BY DEF Held
<1>4. IsFiniteSet(Held) BY <1>2, <1>3, FS_Subset
<1>5. Cardinality(Held) \in Nat BY <1>4, FS_CardinalityType
<1> QED BY <1>2, <1>4, <1>5

THEOREM InitInv == Init => Inv
<1> SUFFICES ASSUME Init PROVE Inv OBVIOUS
<1>1. Held = {} BY DEF Init, Held
<1>2. Cardinality(Held) = 0 BY <1>1, FS_EmptySet
<1> QED BY <1>2, Consts DEF Init, Inv, TypeOK, Workers

THEOREM NextInv == Inv /\ [Next]_vars => Inv'
<1> SUFFICES ASSUME Inv, [Next]_vars PROVE Inv' OBVIOUS
<1> USE Consts
<1>f. IsFiniteSet(Held) /\ Cardinality(Held) \in Nat BY Fin
<1>1. CASE UNCHANGED vars
  <2>1. Held' = Held BY <1>1 DEF vars, Held, Workers
  <2> QED BY <1>1, <2>1 DEF Inv, TypeOK, vars, Workers
<1>2. ASSUME NEW w \in Workers, Acquire(w) PROVE Inv'
  <2>1. Held' = Held \cup {w} /\ w \notin Held BY <1>2 DEF Acquire, Held, Inv, TypeOK
  <2>2. Cardinality(Held') = Cardinality(Held) + 1 BY <2>1, <1>f, FS_AddElement
  <2> QED BY <1>2, <1>f, <2>2 DEF Acquire, Inv, TypeOK, Workers
<1>3. ASSUME NEW w \in Workers, Compute(w) PROVE Inv'
  <2>1. Held' = Held BY <1>3 DEF Compute, Held, Inv, TypeOK
  <2> QED BY <1>3, <1>f, <2>1 DEF Compute, Inv, TypeOK, Workers
<1>4. ASSUME NEW w \in Workers, Release(w) PROVE Inv'
  <2>0. wpc[w] = "computed" /\ ~closed BY <1>4 DEF Release, Inv, TypeOK
  <2>1. Held' = Held \ {w} /\ w \in Held BY <1>4, <2>0 DEF Release, Held, Inv, TypeOK
  <2>2. Cardinality(Held') = Cardinality(Held) - 1 BY <2>1, <1>f, FS_RemoveElement
  <2> QED BY <1>4, <1>f, <2>0, <2>2 DEF Release, Inv, TypeOK, Workers
<1>5. ASSUME NEW w \in Workers, End(w) PROVE Inv'
  <2>1. Held' = Held BY <1>5 DEF End, Held, Inv, TypeOK
  <2> QED BY <1>5, <1>f, <2>1 DEF End, Inv, TypeOK, Workers
<1>6. CASE Start
  <2>0. started + 1 \in Workers /\ wpc[started + 1] = "unborn" BY <1>6 DEF Start, Inv, TypeOK, Workers
  <2>1. Held' = Held \cup {started + 1} /\ started + 1 \notin Held BY <1>6, <2>0 DEF Start, Held, Inv, TypeOK
  <2>2. Cardinality(Held') = Cardinality(Held) + 1 BY <2>1, <1>f, FS_AddElement
  <2> QED BY <1>6, <1>f, <2>0, <2>2 DEF Start, Inv, TypeOK, Workers
<1>7. CASE Return
  <2>1. Held' = Held BY <1>7 DEF Return, Held
  <2> QED BY <1>7, <1>f, <2>1 DEF Return, Inv, TypeOK, Workers
<1> QED BY <1>1, <1>2, <1>3, <1>4, <1>5, <1>6, <1>7 DEF Next

THEOREM Safe == Inv => /\ NoCrash
                       /\ TokensKept
                       /\ Cardinality(Computing) <= NbCores
                       /\ AllProcessed
<1> SUFFICES ASSUME Inv PROVE NoCrash /\ TokensKept /\ Cardinality(Computing) <= NbCores /\ AllProcessed OBVIOUS
<1> USE Consts
<1>f. IsFiniteSet(Held) /\ Cardinality(Held) \in Nat BY Fin
<1>1. NoCrash BY DEF Inv, TypeOK, NoCrash
<1>2. TokensKept BY DEF Inv, TokensKept, Holding, Held
<1>3. Computing \subseteq Held BY DEF Computing, Held
<1>4. Cardinality(Computing) <= Cardinality(Held) /\ Cardinality(Computing) \in Nat BY <1>3, <1>f, FS_Subset, FS_CardinalityType
<1>5. AllProcessed BY DEF Inv, AllProcessed
<1> QED BY <1>1, <1>2, <1>4, <1>5, <1>f DEF Inv, TypeOK

THEOREM Init /\ [][Next]_vars => [](NoCrash /\ TokensKept /\ Cardinality(Computing) <= NbCores /\ AllProcessed)
BY InitInv, NextInv, Safe, PTL
================================================================================
