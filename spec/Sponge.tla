--------------------------------- MODULE Sponge ---------------------------------
(***************************************************************************)
(* The hash functions of package hash: MiMC, GMiMC and Poseidon, all in     *)
(* Miyaguchi-Preneel mode over the permutation of each.                     *)
(***************************************************************************)
EXTENDS Poly, TLC, SequencesExt

CONSTANTS Ark(_),          \* round constant number i, 1-based
          XArr(_), YArr(_) \* the constants of the Cauchy matrices, 1-based

\* op(...op(op(start, 1), 2)..., n), every step computed before the next (TLCEval: TLC
\* otherwise carries unevaluated expressions from round to round)
FoldRounds(op(_, _), start, n) ==
    FoldLeftDomain(LAMBDA x, i : TLCEval(op(x, i)), start, [i \in 1..n |-> i])

SBox(x) == LET x2 == FMul(x, x)
               x3 == FMul(x2, x)
               x6 == FMul(x3, x3)
           IN  FMul(x6, x)

(* ---- MiMC ---- *)
MimcRounds == 91

\* the keyed permutation
MimcPerm(s, key) == FoldRounds(LAMBDA x, i : SBox(FAdd(FAdd(x, key), Ark(i))), s, MimcRounds)

MimcUpdate(s, block) == FAdd(FAdd(MimcPerm(s, block), s), block)

MimcHash(msg) == FoldRounds(LAMBDA s, i : MimcUpdate(s, msg[i]), FZero, Len(msg))

(* ---- blocks of t elements, the last one padded with zeroes ---- *)
NbBlocks(n, t) == (n + t - 1) \div t
BlockAt(msg, i, t) == [j \in 1..t |-> IF i + j - 1 <= Len(msg) THEN msg[i + j - 1] ELSE FZero]

AddArkAndKeys(s, keys, a) == [j \in 1..Len(s) |-> FAdd(FAdd(s[j], keys[j]), a)]
Recombine(new, old, block) == [j \in 1..Len(new) |-> FAdd(FAdd(new[j], old[j]), block[j])]
SBoxFirst(s) == [s EXCEPT ![1] = SBox(@)]
SBoxAll(s) == [j \in 1..Len(s) |-> SBox(s[j])]

(* ---- GMiMC ---- *)
RotateLeft(s) == [j \in 1..Len(s) |-> s[(j % Len(s)) + 1]]

GMimcPerm(s, keys) ==
    FoldRounds(LAMBDA x, i : RotateLeft(SBoxFirst(AddArkAndKeys(x, keys, Ark(i)))), s, MimcRounds)
GMimcUpdate(s, block) == Recombine(GMimcPerm(s, block), s, block)
GMimcHash(msg, t) ==
    FoldRounds(LAMBDA s, b : GMimcUpdate(s, BlockAt(msg, (b - 1) * t + 1, t)),
               [j \in 1..t |-> FZero], NbBlocks(Len(msg), t))[1]

(* ---- Poseidon ---- *)
PoseidonFull == 8                                        \* full rounds before and after
PoseidonPartial(t) == CASE t = 2 -> 82 [] t = 4 -> 83 [] t = 8 -> 84
MDS(t) == TLCEval([i \in 1..t |-> [j \in 1..t |-> FInv(FAdd(XArr(i), YArr(j)))]])
MatMul(M, v) == [i \in 1..Len(M) |-> Sum([j \in 1..Len(v) |-> FMul(M[i][j], v[j])])]

PoseidonPerm(s, keys, t) ==
    LET M == MDS(t)
        Round(x, i) == LET a == TLCEval(AddArkAndKeys(x, keys, Ark(i)))
                           b == IF i <= PoseidonFull \/ i > PoseidonFull + PoseidonPartial(t)
                                THEN TLCEval(SBoxAll(a)) ELSE TLCEval(SBoxFirst(a))
                       IN  MatMul(M, b)
    IN  FoldRounds(Round, s, 2 * PoseidonFull + PoseidonPartial(t))
PoseidonUpdate(s, block, t) == Recombine(PoseidonPerm(s, block, t), s, block)
PoseidonHash(msg, t) ==
    FoldRounds(LAMBDA s, b : PoseidonUpdate(s, BlockAt(msg, (b - 1) * t + 1, t), t),
               [j \in 1..t |-> FZero], NbBlocks(Len(msg), t))[1]
================================================================================
