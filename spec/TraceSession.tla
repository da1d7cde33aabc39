------------------------------- MODULE TraceSession -----------------------------
(***************************************************************************)
(* Conformance of sessions, kind "session": the objects in the beginning,    *)
(* and for every call what was called, what it returned and (where the       *)
(* record has it) all objects afterwards.                                    *)
(***************************************************************************)
EXTENDS Session, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, i, outcome
tvars == <<c, i, outcome, heap, memo>>
K == Cases[c]
Say(v, info) == outcome' = v /\ PrintT(<<v, c, info>>)

TInit == /\ c \in DOMAIN Cases /\ i = 0 /\ outcome = "none"
         /\ SeInit(Cases[c].start)
After(e) == IF "heap" \in DOMAIN e THEN e.heap ELSE heap
Call ==
    /\ outcome = "none" /\ i < Len(K.ev)
    /\ LET e == K.ev[i + 1]
           g == After(e)
           why == IF ~Consistent(e.what, e.res) THEN "result differs"
                  ELSE IF ~Expected(e.what, e.res) THEN "honest proof rejected"
                  ELSE IF ~Extends(g, heap) THEN "objects changed"
                  ELSE IF ~CreatedBy(g, heap, e.what, e.res) THEN "object differs from result" ELSE ""
       IN  IF why = "" THEN SeCall(e.what, e.res, g) /\ i' = i + 1 /\ UNCHANGED outcome
           ELSE Say("REJECT", <<"call", i + 1, e.what, why>>) /\ UNCHANGED <<i, heap, memo>>
    /\ UNCHANGED c
End == /\ outcome = "none" /\ i = Len(K.ev)
       /\ Say("ACCEPT", i) /\ UNCHANGED <<c, i, heap, memo>>
TNext == Call \/ End
TSpec == TInit /\ [][TNext]_tvars
================================================================================
