------------------------------ MODULE ChunksProof ------------------------------
(* The ranges of Chunks.tla cover every index exactly once, in order, whatever *)
(* the size of the tables, the number of cores and the smallest chunk (tlapm). *)
EXTENDS Chunks, TLAPS

LEMMA Division == \A a \in Nat, b \in Nat \ {0} : /\ a \div b \in Nat
                                                 /\ (a \div b) * b <= a /\ a < (a \div b) * b + b
  OBVIOUS
LEMMA Size == ASSUME NEW n \in Nat, NEW cores \in Nat \ {0}, NEW m \in Nat \ {0}
              PROVE  ChunkSize(cores, n, m) \in Nat \ {0}
<1>1. n \div cores \in Nat BY Division
<1> QED BY <1>1 DEF ChunkSize
LEMMA Times == \A i \in Int, s \in Int : i * s \in Int /\ (i + 1) * s = i * s + s /\ (i - 1) * s = i * s - s
  OBVIOUS
LEMMA Mono == \A i \in Nat, j \in Nat, s \in Nat : i <= j => i * s <= j * s
  OBVIOUS

THEOREM ASSUME NEW n \in Nat, NEW cores \in Nat \ {0}, NEW m \in Nat \ {0}
        PROVE  Partition(Ranges0(cores, n, m), n)
<1> DEFINE s == ChunkSize(cores, n, m)
           q == n \div s
           k == NbRanges(cores, n, m)
           rs == Ranges0(cores, n, m)
<1>1. s \in Nat \ {0} BY Size
<1> HIDE DEF s
<1>2. q \in Nat /\ q * s <= n /\ n < q * s + s /\ q * s \in Nat BY <1>1, Division
<1>3. k = q + (IF q * s < n THEN 1 ELSE 0) BY DEF NbRanges, s, q
<1> HIDE DEF q
<1>4. k \in Nat BY <1>2, <1>3
<1>5. rs = [i \in 1..k |-> [b |-> (i - 1) * s, e |-> IF i * s < n THEN i * s ELSE n]] BY DEF Ranges0, s, k
<1> HIDE DEF rs, k
<1>6. Len(rs) = k /\ DOMAIN rs = 1..k BY <1>4, <1>5
<1>7. \A i \in 1..k : rs[i].b = (i - 1) * s /\ rs[i].e = IF i * s < n THEN i * s ELSE n BY <1>5
\* all but the last end at a multiple of s
<1>8. ASSUME NEW i \in 1..(k - 1) PROVE i * s <= q * s /\ i * s <= n /\ i \in Nat /\ i * s \in Nat
  <2>1. i \in Nat /\ i <= q BY <1>2, <1>3, <1>4
  <2>2. i * s <= q * s /\ i * s \in Nat BY <2>1, <1>1, <1>2, Mono
  <2> QED BY <2>1, <2>2, <1>2
<1>9. ASSUME NEW i \in 1..(k - 1) PROVE rs[i + 1].b = rs[i].e
  <2>1. i \in 1..k /\ i + 1 \in 1..k /\ (i + 1) - 1 = i BY <1>4
  <2>2. rs[i + 1].b = i * s BY <1>7, <2>1
  <2>3. rs[i].e = IF i * s < n THEN i * s ELSE n BY <1>7, <2>1
  <2> QED BY <2>2, <2>3, <1>8
<1>10. ASSUME NEW i \in 1..k PROVE rs[i].b <= rs[i].e
  <2>1. rs[i].b = (i - 1) * s /\ rs[i].e = IF i * s < n THEN i * s ELSE n BY <1>7
  <2>2. i - 1 \in Nat /\ i - 1 <= q /\ i \in Nat BY <1>2, <1>3, <1>4
  <2>3. (i - 1) * s <= q * s BY <2>2, <1>1, <1>2, Mono
  <2>4. (i - 1) * s <= i * s BY <2>2, <1>1, Mono
  <2>5. (i - 1) * s \in Int /\ i * s \in Int BY <2>2, <1>1
  <2> QED BY <2>1, <2>3, <2>4, <2>5, <1>2
<1>11. CASE k = 0
  <2>1. q = 0 /\ q * s = 0 BY <1>11, <1>1, <1>2, <1>3
  <2>2. n = 0 BY <2>1, <1>11, <1>2, <1>3
  <2>3. rs = <<>> BY <1>5, <1>11
  <2> QED BY <2>2, <2>3, <1>6, <1>9, <1>10 DEF Partition, rs
<1>12. CASE k # 0
  <2>1. k \in 1..k /\ 1 \in 1..k BY <1>12, <1>4
  <2>2. rs # <<>> BY <1>6, <1>12
  <2>3. rs[1].b = 0 BY <1>7, <2>1, <1>1
  <2>4. rs[k].e = n
    <3>1. rs[k].e = IF k * s < n THEN k * s ELSE n BY <1>7, <2>1
    <3>2. CASE q * s < n
      <4>1. k = q + 1 BY <3>2, <1>3
      <4>2. k * s = q * s + s BY <4>1, <1>1, <1>2, Times
      <4> QED BY <3>1, <4>2, <1>1, <1>2
    <3>3. CASE q * s = n
      <4>1. k = q BY <3>3, <1>2, <1>3
      <4> QED BY <3>1, <4>1, <3>3, <1>2
    <3> QED BY <3>2, <3>3, <1>2
  <2> QED BY <2>2, <2>3, <2>4, <1>6, <1>9, <1>10 DEF Partition, rs
<1> QED BY <1>11, <1>12
================================================================================
