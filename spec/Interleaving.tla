------------------------------ MODULE Interleaving ------------------------------
(***************************************************************************)
(* Substitution in a table, and its division into interleaved chunks.       *)
(* Kept apart from Poly for InterleavingProof.                              *)
(***************************************************************************)
EXTENDS FieldOps

\* substitutes r for the first variable
Fold(T, r) ==
    LET m == Len(T) \div 2
    IN  TLCEval([i \in 1..m |-> FAdd(T[i], FMul(r, FSub(T[i + m], T[i])))])

\* Chunks are interleaved: entry i of chunk k (0-based) is entry i * n + k of the whole
Unchunk(C) ==
    LET n == Len(C)
    IN  TLCEval([x \in 1..(n * Len(C[1])) |-> C[((x - 1) % n) + 1][((x - 1) \div n) + 1]])
Chunk(T, k, n) == TLCEval([i \in 1..(Len(T) \div n) |-> T[(i - 1) * n + k]])      \* k in 1..n
Chunks(T, n) == [k \in 1..n |-> Chunk(T, k, n)]
================================================================================
