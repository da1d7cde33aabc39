--------------------------------- MODULE Chunks ---------------------------------
(***************************************************************************)
(* Dividing n items among workers (common/chunks.go).                       *)
(***************************************************************************)
EXTENDS Integers, Sequences

\* the ranges [Begin, End) cover 0..n-1, each index once, in order
Partition(rs, n) ==
    /\ \A i \in 1..Len(rs) : rs[i].b <= rs[i].e
    /\ \A i \in 1..(Len(rs) - 1) : rs[i + 1].b = rs[i].e
    /\ IF rs = <<>> THEN n = 0 ELSE rs[1].b = 0 /\ rs[Len(rs)].e = n

\* as it is computed: chunks as big as possible, one per core, but not smaller than minChunk
ChunkSize(cores, n, minChunk) == IF n \div cores > minChunk THEN n \div cores ELSE minChunk
NbRanges(cores, n, minChunk) ==
    LET s == ChunkSize(cores, n, minChunk)
    IN  n \div s + (IF (n \div s) * s < n THEN 1 ELSE 0)
Ranges0(cores, n, minChunk) ==
    LET s == ChunkSize(cores, n, minChunk)
    IN  [i \in 1..NbRanges(cores, n, minChunk) |->
            [b |-> (i - 1) * s, e |-> IF i * s < n THEN i * s ELSE n]]
================================================================================
