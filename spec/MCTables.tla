-------------------------------- MODULE MCTables --------------------------------
(***************************************************************************)
(* The tables as Go has them - slice headers over shared backing arrays,    *)
(* folding in place, destinations that are reused when their capacity       *)
(* suffices - refine the heap of independent tables of Tables.tla, as long  *)
(* as tables are obtained by New and DeepCopy.                              *)
(***************************************************************************)
EXTENDS Tables, SmallField, TLC

CONSTANTS Names, MaxArrays, Init0, Scalars, MaxLevel

VARIABLES mem,     \* mem[i]: backing array number i
          hdr      \* hdr[name]: [arr, len] slice header, always from the start of the array
vars == <<heap, mem, hdr>>

View(n) == SubSeq(mem[hdr[n].arr], 1, hdr[n].len)
Alloc(m, T) == Append(m, T)
Live == DOMAIN hdr

Init == /\ mem = <<Init0>> /\ hdr = [n \in {"a"} |-> [arr |-> 1, len |-> Len(Init0)]]
        /\ heap = [n \in {"a"} |-> Init0]

SetHdr(n, h) == [x \in DOMAIN hdr \cup {n} |-> IF x = n THEN h ELSE hdr[x]]

\* top[i] <- r (top[i] - bottom[i]);  bottom[i] <- bottom[i] + top[i]
CFold(n, r) ==
    LET T == View(n)
        m == Len(T) \div 2
        top == [i \in 1..m |-> FMul(FSub(T[i + m], T[i]), r)]
        arr == [i \in 1..Len(mem[hdr[n].arr]) |->
                  IF i <= m THEN FAdd(T[i], top[i])
                  ELSE IF i <= 2 * m THEN top[i - m] ELSE mem[hdr[n].arr][i]]
    IN  /\ Len(T) > 1
        /\ mem' = [mem EXCEPT ![hdr[n].arr] = arr]
        /\ hdr' = SetHdr(n, [arr |-> hdr[n].arr, len |-> m])
        /\ Do([op |-> "fold", a |-> n, s |-> r])
CCopy(n, d) ==
    /\ Len(mem) < MaxArrays
    /\ mem' = Alloc(mem, View(n))
    /\ hdr' = SetHdr(d, [arr |-> Len(mem) + 1, len |-> hdr[n].len])
    /\ Do([op |-> "copy", a |-> n, d |-> d])
\* the destination's array is reused if it is large enough (its capacity, not its length)
CInto(d, T) ==
    IF d \in Live /\ Len(mem[hdr[d].arr]) >= Len(T)
    THEN /\ mem' = [mem EXCEPT ![hdr[d].arr] = [i \in 1..Len(@) |-> IF i <= Len(T) THEN T[i] ELSE @[i]]]
         /\ hdr' = SetHdr(d, [arr |-> hdr[d].arr, len |-> Len(T)])
    ELSE /\ Len(mem) < MaxArrays
         /\ mem' = Alloc(mem, T)
         /\ hdr' = SetHdr(d, [arr |-> Len(mem) + 1, len |-> Len(T)])
CAdd(a, b, d) == /\ hdr[a].len = hdr[b].len /\ CInto(d, TabAdd(View(a), View(b)))
                 /\ Do([op |-> "add", a |-> a, b |-> b, d |-> d])
CSub(a, b, d) == /\ hdr[a].len = hdr[b].len /\ CInto(d, TabSub(View(a), View(b)))
                 /\ Do([op |-> "sub", a |-> a, b |-> b, d |-> d])
CMul(a, s, d) == CInto(d, TabScale(s, View(a))) /\ Do([op |-> "mul", a |-> a, s |-> s, d |-> d])
\* a copy, folded along: the original is not touched
CEval(n, pt) == Len(pt) = Log2Ceil(hdr[n].len) /\ Do([op |-> "eval", a |-> n, pt |-> pt]) /\ UNCHANGED <<mem, hdr>>

Next ==
    \/ \E n \in Live, r \in Scalars : CFold(n, r)
    \/ \E n \in Live, d \in Names : CCopy(n, d)
    \/ \E n \in Live, b \in Live, d \in Names : CAdd(n, b, d) \/ CSub(n, b, d)
    \/ \E n \in Live, s \in Scalars, d \in Names : CMul(n, s, d)
    \/ \E n \in Live : CEval(n, [i \in 1..Log2Ceil(hdr[n].len) |-> 2])
Spec == Init /\ [][Next]_vars

Refines == DOMAIN heap = Live /\ \A n \in Live : View(n) = heap[n]
\* no two tables share memory
Separate == \A m, n \in Live : m # n => hdr[m].arr # hdr[n].arr
\* folding one variable after the other is the multilinear extension, and sums of tables extend to sums
EvalIsMLE == \A n \in Live : LET pt == [i \in 1..Log2Ceil(hdr[n].len) |-> i + 1] IN Eval(heap[n], pt) = MLE(heap[n], pt)

Tab4 == <<1, 2, 0, 2>>
Short == TLCGet("level") <= MaxLevel
================================================================================
