------------------------------- MODULE TraceTables -------------------------------
(***************************************************************************)
(* Conformance of the book-keeping tables.                                  *)
(*                                                                          *)
(* kind "tables": a sequence of operations on named tables, with what each   *)
(*   returned and the contents of every live table after it.                *)
(* kind "ranges": the ranges work was divided into, for numbers of cores and *)
(*   of items.                                                              *)
(***************************************************************************)
EXTENDS Tables, Chunks, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, step, outcome
tvars == <<heap, c, step, outcome>>

K == Cases[c]
Say(v, info) == outcome' = v /\ PrintT(<<v, c, info>>)

TInit == /\ outcome = "none" /\ step = 1 /\ c \in DOMAIN Cases
         /\ heap = [n \in {} |-> <<>>]

Observed(obs) == [n \in { obs[i].n : i \in DOMAIN obs } |-> (CHOOSE o \in RangeOf(obs) : o.n = n).t]

Step ==
    /\ K.kind = "tables" /\ outcome = "none" /\ step <= Len(K.steps)
    /\ LET s == K.steps[step]
       IN  IF Result(s) # s.res THEN Say("REJECT", <<"result of", s.op, step>>) /\ UNCHANGED <<heap, step>>
           ELSE IF Effect(s) # (IF s.same THEN heap ELSE Observed(s.obs)) THEN Say("REJECT", <<"tables after", s.op, step>>) /\ UNCHANGED <<heap, step>>
           ELSE Do(s) /\ step' = step + 1 /\ UNCHANGED outcome
    /\ UNCHANGED c
End ==
    /\ K.kind = "tables" /\ outcome = "none" /\ step > Len(K.steps)
    /\ Say("ACCEPT", <<step - 1>>) /\ UNCHANGED <<heap, c, step>>
Ranges ==
    /\ K.kind = "ranges" /\ outcome = "none"
    /\ LET bad == { i \in DOMAIN K.runs : ~Partition(K.runs[i].ranges, K.runs[i].n) }
       IN  IF bad = {} THEN Say("ACCEPT", <<>>) ELSE Say("REJECT", <<K.runs[CHOOSE i \in bad : TRUE]>>)
    /\ UNCHANGED <<heap, c, step>>

TNext == Step \/ End \/ Ranges
TSpec == TInit /\ [][TNext]_tvars
================================================================================
