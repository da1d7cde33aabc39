-------------------------------- MODULE MCChunks --------------------------------
(***************************************************************************)
(* Workers filling a destination over the ranges of Chunks.tla, at most      *)
(* Cores of them at a time (polynomial/book_keeping.go Sub, Mul): whatever   *)
(* the interleaving, every index is written exactly once before the call     *)
(* returns, and the destination may be one of the operands.                 *)
(***************************************************************************)
EXTENDS Chunks, FiniteSets, TLC

CONSTANTS MaxN, MaxCores, MinChunk

VARIABLES n, cores, rs, next, at, permits, src, dst, pc
vars == <<n, cores, rs, next, at, permits, src, dst, pc>>

Idle == 0 - 1
Init == /\ n \in 0..MaxN /\ cores \in 1..MaxCores
        /\ rs = Ranges0(cores, n, MinChunk)
        /\ next = 1 /\ permits = cores /\ pc = "launch"
        /\ at = [i \in 1..Len(rs) |-> Idle]
        /\ src = [i \in 0..(n - 1) |-> 1] /\ dst = [i \in 0..(n - 1) |-> 0]

\* the caller takes a permit, then starts the worker of the next range
Launch == /\ pc = "launch" /\ next <= Len(rs) /\ permits > 0
          /\ permits' = permits - 1
          /\ at' = [at EXCEPT ![next] = rs[next].b]
          /\ next' = next + 1
          /\ UNCHANGED <<n, cores, rs, src, dst, pc>>
Write(w) == /\ at[w] # Idle /\ at[w] < rs[w].e
            /\ dst' = [dst EXCEPT ![at[w]] = @ + src[at[w]]]
            /\ at' = [at EXCEPT ![w] = @ + 1]
            /\ UNCHANGED <<n, cores, rs, next, permits, src, pc>>
\* done: the permit is given back
Finish(w) == /\ at[w] = rs[w].e /\ at' = [at EXCEPT ![w] = n + 1] /\ permits' = permits + 1
             /\ UNCHANGED <<n, cores, rs, next, src, dst, pc>>
Return == /\ pc = "launch" /\ next > Len(rs) /\ \A w \in DOMAIN at : at[w] = n + 1
          /\ pc' = "returned" /\ UNCHANGED <<n, cores, rs, next, at, permits, src, dst>>
Next == Launch \/ (\E w \in DOMAIN at : Write(w) \/ Finish(w)) \/ Return
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Covers == Partition(rs, n)
FewRanges == Len(rs) <= cores + 1
AtMostCores == Cardinality({ w \in DOMAIN at : at[w] # Idle /\ at[w] # n + 1 }) <= cores
OnceEach == \A i \in DOMAIN dst : dst[i] <= 1
AllDone == pc = "returned" => \A i \in DOMAIN dst : dst[i] = 1
Terminates == <>(pc = "returned")
================================================================================
