--------------------------------- MODULE MCBatch ----------------------------------
(***************************************************************************)
(* Why the size of a batch is checked before it is evaluated (C03).         *)
(*                                                                          *)
(* A batch of any number of chunks of any sizes is evaluated at a point as   *)
(* polynomial.EvaluateChunked does: the last coordinates merge the chunks in *)
(* halves, the others fold the one that remains.  When the batch is of the   *)
(* size the point calls for,                                                *)
(*   NoCrash:  the evaluation has a value                                   *)
(*   Vouches:  a batch that is accepted has the size the proof is about, and *)
(*             its multilinear extension the value that has been proved      *)
(*   Complete: such a batch is accepted, however it is divided              *)
(* Without the check the first two fail: what folding leaves over is ignored. *)
(***************************************************************************)
EXTENDS GkrLayout, SmallField, FiniteSets, TLC

CONSTANTS N, Total, Checked

NoLayers(cc) == 0
NoLayer(cc, k) == <<>>
BN(cc) == N

VARIABLES batch,       \* the chunks presented
          pt, proved,  \* the point, and the value the proof is about
          tabs, rest,  \* what is left of chunks and coordinates
          pc           \* "size", "merge", "fold", "accepted", "rejected", "crash"
vars == <<batch, pt, proved, tabs, rest, pc>>

RECURSIVE SumTo(_, _)
SumTo(f, k) == IF k = 0 THEN 0 ELSE f[k] + SumTo(f, k - 1)
Shapes == { s \in UNION { [1..n -> 0..Total] : n \in 1..4 } : SumTo(s, Len(s)) <= Total }
\* the values v divided into chunks of the sizes s
Divided(s, v) == [k \in 1..Len(s) |-> SubSeq(v, SumTo(s, k - 1) + 1, SumTo(s, k))]
Sizes == [k \in 1..Len(batch) |-> Len(batch[k])]

Init ==
    /\ \E s \in Shapes : \E v \in [1..SumTo(s, Len(s)) -> Fp] : batch = Divided(s, v)
    /\ pt \in [1..N -> Fp]
    /\ proved \in Fp
    /\ tabs = batch /\ rest = pt /\ pc = "size"

Size ==
    /\ pc = "size"
    /\ pc' = IF Checked /\ ~BatchOf(Sizes, N) THEN "rejected"
             ELSE IF Log2Ceil(Len(tabs)) > Len(rest) THEN "crash"
             ELSE IF Log2Ceil(Len(tabs)) = 0 THEN "fold" ELSE "merge"
    /\ UNCHANGED <<batch, pt, proved, tabs, rest>>

\* coordinate number k of the last ones: chunk i and chunk i + half, for all i of the first half
Steps == Log2Ceil(Len(batch))
Merged(k) == pt[Len(pt) - Steps + k]
Merge ==
    /\ pc = "merge"
    /\ LET half == Len(tabs) \div 2
           k    == Steps - (Len(rest) - (Len(pt) - Steps)) + 1
       IN  IF \E i \in 1..half : Len(tabs[i]) # Len(tabs[i + half])
           THEN pc' = "crash" /\ UNCHANGED <<tabs, rest>>
           ELSE /\ tabs' = [i \in 1..half |-> [j \in 1..Len(tabs[i]) |->
                               FAdd(tabs[i][j], FMul(Merged(k), FSub(tabs[i + half][j], tabs[i][j])))]]
                /\ rest' = SubSeq(rest, 1, Len(rest) - 1)
                /\ pc' = IF Len(rest) - 1 = Len(pt) - Steps THEN (IF half = 0 THEN "crash" ELSE "fold") ELSE "merge"
    /\ UNCHANGED <<batch, pt, proved>>

FoldOne ==
    /\ pc = "fold" /\ rest # <<>>
    /\ tabs' = << Fold(tabs[1], Head(rest)) >>
    /\ rest' = Tail(rest)
    /\ UNCHANGED <<batch, pt, proved, pc>>

Answer ==
    /\ pc = "fold" /\ rest = <<>>
    /\ pc' = IF tabs[1] = <<>> THEN "crash" ELSE IF tabs[1][1] = proved THEN "accepted" ELSE "rejected"
    /\ UNCHANGED <<batch, pt, proved, tabs, rest>>

Next == Size \/ Merge \/ FoldOne \/ Answer
Spec == Init /\ [][Next]_vars

NoCrash  == pc # "crash"
Vouches  == pc = "accepted" => BatchOf(Sizes, N) /\ Eval(Unchunk(batch), pt) = proved
Complete == pc = "rejected" => ~(BatchOf(Sizes, N) /\ Eval(Unchunk(batch), pt) = proved)
================================================================================
