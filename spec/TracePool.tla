-------------------------------- MODULE TracePool -------------------------------
(***************************************************************************)
(* Conformance of the pools of workers.                                     *)
(*                                                                          *)
(* kind "pool": the events of one call that spreads its work over workers,   *)
(*   <<1, w>>: worker w starts computing, <<2, w>>: it stops, <<3, 0>>: the   *)
(*   call returns; and the number of processes it left behind.  One step of  *)
(*   Occupancy per event.                                                    *)
(* kind "copies": tables and their copies.                                  *)
(***************************************************************************)
EXTENDS Sequences, Naturals, FiniteSets, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, i, inside, phase, outcome
tvars == <<c, i, inside, phase, outcome>>
K == Cases[c]
Say(v, info) == outcome' = v /\ PrintT(<<v, c, info>>)

Occ == INSTANCE Occupancy

TInit == /\ c \in DOMAIN Cases /\ i = 0 /\ outcome = "none"
         /\ inside = {} /\ phase = "running"

EventAction(e) == CASE e[1] = 1 -> Occ!OEnter(e[2], K.cores)
                    [] e[1] = 2 -> Occ!OLeave(e[2])
                    [] e[1] = 3 -> Occ!OReturn
                    [] OTHER -> FALSE
\* the guards of the actions, without their effects
CanDo(e) == CASE e[1] = 1 -> phase = "running" /\ e[2] \notin inside /\ Cardinality(inside) < K.cores
              [] e[1] = 2 -> e[2] \in inside
              [] e[1] = 3 -> phase = "running" /\ inside = {}
              [] OTHER -> FALSE
Event ==
    /\ K.kind = "pool" /\ outcome = "none" /\ i < Len(K.ev)
    /\ IF CanDo(K.ev[i + 1])
       THEN EventAction(K.ev[i + 1]) /\ i' = i + 1 /\ UNCHANGED outcome
       ELSE Say("REJECT", <<"event", i + 1, K.ev[i + 1], "inside", Cardinality(inside), phase>>) /\ UNCHANGED <<i, inside, phase>>
    /\ UNCHANGED c
Quiet ==
    /\ K.kind = "pool" /\ outcome = "none" /\ i = Len(K.ev)
    /\ IF phase = "returned" /\ K.left = 0
       THEN Occ!OQuiet(K.left) /\ Say("ACCEPT", i)
       ELSE Say("REJECT", <<"left behind", K.left, phase>>) /\ UNCHANGED <<inside, phase>>
    /\ UNCHANGED <<c, i>>
Copies ==
    /\ K.kind = "copies" /\ outcome = "none"
    /\ IF K.left = 0 /\ K.dst = K.src THEN Say("ACCEPT", Len(K.src))
       ELSE Say("REJECT", <<"copies", K.left, { k \in DOMAIN K.src : k \notin DOMAIN K.dst \/ K.dst[k] # K.src[k] }>>)
    /\ UNCHANGED <<c, i, inside, phase>>
TNext == Event \/ Quiet \/ Copies
TSpec == TInit /\ [][TNext]_tvars
================================================================================
