---------------------------- MODULE InterleavingProof ----------------------------
(* Folding the interleaved chunks of a table is folding the table: whatever its  *)
(* size, the number of chunks and the field (tlapm).  It is what PartsOfWhole of  *)
(* ParProver rests on, which TLC checks on small tables.                         *)
EXTENDS Interleaving, TLAPS

LEMMA Eval1 == ASSUME NEW v PROVE TLCEval(v) = v BY DEF TLCEval
LEMMA Quot == \A a \in Nat, b \in Nat \ {0} : (a * b) \div b = a OBVIOUS
LEMMA Twice == \A a \in Nat : (2 * a) \div 2 = a OBVIOUS
LEMMA Prd == \A a \in Nat, b \in Nat : a * b \in Nat OBVIOUS
LEMMA Mono == \A i \in Nat, j \in Nat, s \in Nat : i <= j => i * s <= j * s OBVIOUS
LEMMA Dist == \A i \in Int, j \in Int, s \in Int : (i + j) * s = i * s + j * s OBVIOUS

THEOREM FoldChunk ==
    ASSUME NEW S, NEW T \in Seq(S), NEW c \in Nat, NEW n \in Nat \ {0}, Len(T) = (2 * c) * n,
           NEW k \in 1..n, NEW r
    PROVE  Fold(Chunk(T, k, n), r) = Chunk(Fold(T, r), k, n)
<1> DEFINE C == Chunk(T, k, n)
           F == Fold(T, r)
           m == c * n
<1>0. m \in Nat /\ Len(T) = 2 * m /\ Len(T) \in Nat BY Prd, Dist
<1>1. Len(T) \div n = 2 * c BY Quot
<1>2. C = [i \in 1..(2 * c) |-> T[(i - 1) * n + k]] BY <1>1, Eval1 DEF Chunk
<1>3. Len(C) = 2 * c BY <1>2
<1>4. Len(T) \div 2 = m BY <1>0, Twice
<1> HIDE DEF m
<1>5. F = [i \in 1..m |-> FAdd(T[i], FMul(r, FSub(T[i + m], T[i])))] BY <1>4, Eval1 DEF Fold
<1>6. Len(F) = m BY <1>5, <1>0
<1>7. Len(F) \div n = c BY <1>6, Quot DEF m
<1>8. Chunk(F, k, n) = [i \in 1..c |-> F[(i - 1) * n + k]] BY <1>7, Eval1 DEF Chunk
<1>9. Len(C) \div 2 = c BY <1>3, Twice
<1> HIDE DEF C, F
<1>10. Fold(C, r) = [i \in 1..c |-> FAdd(C[i], FMul(r, FSub(C[i + c], C[i])))] BY <1>9, Eval1 DEF Fold
<1>11. ASSUME NEW i \in 1..c
       PROVE  FAdd(C[i], FMul(r, FSub(C[i + c], C[i]))) = F[(i - 1) * n + k]
  <2>1. i - 1 \in Nat /\ i - 1 <= c - 1 /\ c - 1 \in Nat /\ i \in Nat OBVIOUS
  <2>2. (i - 1) * n <= (c - 1) * n BY <2>1, Mono
  <2>3. (c - 1) * n = m - n BY Dist DEF m
  <2>4. (i - 1) * n \in Nat BY <2>1, Prd
  <2>5. (i - 1) * n + k \in 1..m BY <2>2, <2>3, <2>4, <1>0
  <2>6. ((i + c) - 1) * n = (i - 1) * n + m BY <2>1, Dist DEF m
  <2>7. C[i] = T[(i - 1) * n + k] BY <1>2, <2>1
  <2>8. C[i + c] = T[((i + c) - 1) * n + k] BY <1>2, <2>1
  <2>9. ((i + c) - 1) * n + k = ((i - 1) * n + k) + m BY <2>6, <2>4, <1>0
  <2> QED BY <2>5, <2>7, <2>8, <2>9, <1>5
<1> QED BY <1>8, <1>10, <1>11 DEF C, F

THEOREM Rejoined ==
    ASSUME NEW S, NEW T \in Seq(S), NEW c \in Nat, NEW n \in Nat \ {0}, Len(T) = c * n
    PROVE  Unchunk(Chunks(T, n)) = T
<1> DEFINE C == Chunks(T, n)
<1>0. C = [k \in 1..n |-> Chunk(T, k, n)] BY DEF Chunks
<1>1. Len(C) = n /\ 1 \in 1..n BY <1>0
<1>2. Len(T) \div n = c /\ Len(T) \in Nat BY Quot, Prd
<1>3. \A k \in 1..n : C[k] = [i \in 1..c |-> T[(i - 1) * n + k]] BY <1>0, <1>2, Eval1 DEF Chunk
<1>4. Len(C[1]) = c BY <1>1, <1>3
<1>5. n * Len(C[1]) = Len(T) BY <1>4
<1> HIDE DEF C
<1>6. Unchunk(C) = [x \in 1..Len(T) |-> C[((x - 1) % n) + 1][((x - 1) \div n) + 1]] BY <1>1, <1>5, Eval1 DEF Unchunk
<1>7. ASSUME NEW x \in 1..Len(T) PROVE C[((x - 1) % n) + 1][((x - 1) \div n) + 1] = T[x]
  <2> DEFINE q == (x - 1) \div n
             p == (x - 1) % n
  <2>1. x - 1 \in Nat BY <1>2
  <2>2. q \in Nat /\ p \in 0..(n - 1) /\ x - 1 = q * n + p BY <2>1
  <2>3. q < c
    <3>1. CASE q >= c
      <4>1. c * n <= q * n BY <2>2, <3>1, Mono
      <4> QED BY <4>1, <2>2, <2>1, Prd
    <3> QED BY <3>1, <2>2
  <2> HIDE DEF q, p
  <2>4. p + 1 \in 1..n /\ q + 1 \in 1..c BY <2>2, <2>3
  <2>5. C[p + 1][q + 1] = T[((q + 1) - 1) * n + (p + 1)] BY <1>3, <2>4
  <2>6. (q + 1) - 1 = q BY <2>2
  <2>7. q * n + (p + 1) = x BY <2>2, Prd
  <2> QED BY <2>5, <2>6, <2>7 DEF q, p
<1>8. T = [x \in 1..Len(T) |-> T[x]] OBVIOUS
<1> QED BY <1>6, <1>7, <1>8 DEF C
================================================================================
