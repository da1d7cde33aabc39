-------------------------------- MODULE TraceHash -------------------------------
(***************************************************************************)
(* Conformance of the hash functions and of the challenges.                 *)
(*                                                                          *)
(* kind "sponge": a hash state, and a sequence of blocks it is updated with, *)
(*   with the state and the block found after each update.                  *)
(* kind "digest": a message, its digest, its digest once more, and the       *)
(*   message as it was left; what is around the message in memory, and the  *)
(*   digests that users have been given who asked for it at the same time.  *)
(* kind "chal": messages and their challenges; for the near ones, whether    *)
(*   the challenge is another one.                                          *)
(* kind "sumchal": round polynomials, and the challenges that a party to the *)
(*   sumcheck answers them with; one step per party.                         *)
(* The hash state is absorbed block by block: one action per block.         *)
(***************************************************************************)
EXTENDS Sponge, TLC, Json, IOUtils

CONSTANT Challenge(_)

Cases == ndJsonDeserialize(IOEnv.CASES)

VARIABLES c,
          hst,      \* the hash state: a sequence of t elements
          pos,      \* blocks absorbed so far
          outcome
tvars == <<c, hst, pos, outcome>>

K == Cases[c]
Say(v, info) == outcome' = v /\ PrintT(<<v, c, info>>)

UpdateOf(alg, s, block, t) ==
    CASE alg = "mimc"     -> <<MimcUpdate(s[1], block[1])>>
      [] alg = "mimcperm" -> <<MimcPerm(s[1], block[1])>>
      [] alg = "gmimc"    -> GMimcUpdate(s, block)
      [] alg = "poseidon" -> PoseidonUpdate(s, block, t)

Fresh(t) == [j \in 1..t |-> FZero]

TInit == /\ outcome = "none" /\ pos = 0 /\ c \in DOMAIN Cases
         /\ hst = CASE Cases[c].kind = "sponge" -> Cases[c].start
                    [] Cases[c].kind = "digest" -> Fresh(Cases[c].t)
                    [] OTHER -> <<>>

\* one block into the state, and the code's state has to be the same
Update ==
    /\ K.kind = "sponge" /\ outcome = "none" /\ pos < Len(K.steps)
    /\ LET s == K.steps[pos + 1]
           n == TLCEval(UpdateOf(K.alg, hst, s.block, K.t))
       IN  /\ IF n = s.after /\ s.blockAfter = s.block
              THEN UNCHANGED outcome ELSE Say("REJECT", <<K.alg, K.t, "update", pos>>)
           /\ hst' = n /\ pos' = pos + 1
    /\ UNCHANGED c
Updated == /\ K.kind = "sponge" /\ outcome = "none" /\ pos = Len(K.steps)
           /\ Say("ACCEPT", <<pos>>) /\ UNCHANGED <<c, hst, pos>>

\* a message, block by block
Absorb ==
    /\ K.kind = "digest" /\ outcome = "none" /\ pos < NbBlocks(Len(K.msg), K.t)
    /\ hst' = TLCEval(UpdateOf(K.alg, hst, BlockAt(K.msg, pos * K.t + 1, K.t), K.t))
    /\ pos' = pos + 1 /\ UNCHANGED <<c, outcome>>
Squeeze ==
    /\ K.kind = "digest" /\ outcome = "none" /\ pos = NbBlocks(Len(K.msg), K.t)
    /\ LET ok == K.digest = hst[1] /\ K.again = K.digest /\ K.msgAfter = K.msg
                 /\ K.around.is = K.around.was
                 /\ \A i \in DOMAIN K.conc : K.conc[i] = K.digest
       IN  Say(IF ok THEN "ACCEPT" ELSE "REJECT", <<K.alg, K.t, "length", Len(K.msg)>>)
    /\ UNCHANGED <<c, hst, pos>>

\* challenges
Challenges ==
    /\ K.kind = "chal" /\ outcome = "none"
    /\ LET bad  == { i \in DOMAIN K.msgs : K.chals[i] # Challenge(K.msgs[i]) }
           \* the first message is the one the others differ from
           same == { i \in 2..Len(K.msgs) : K.msgs[i] # K.msgs[1] /\ K.chals[i] = K.chals[1] }
           wild == { i \in DOMAIN K.msgs : K.again[i] # K.chals[i] \/ K.after[i] # K.msgs[i]
                                             \/ K.arounds[i].is # K.arounds[i].was }
       IN  IF bad = {} /\ same = {} /\ wild = {} THEN Say("ACCEPT", <<>>)
           ELSE Say("REJECT", <<"not the hash", bad, "not bound", same, "not repeatable", wild>>)
    /\ UNCHANGED <<c, hst, pos>>

ChallengesOf(polys) == [i \in 1..Len(polys) |-> Challenge(polys[i])]
Party ==
    /\ K.kind = "sumchal" /\ outcome = "none" /\ pos < Len(K.runs)
    /\ LET u == K.runs[pos + 1]
       IN  IF u.chals = ChallengesOf(u.polys) THEN pos' = pos + 1 /\ UNCHANGED outcome
           ELSE Say("REJECT", <<u.who>>) /\ UNCHANGED pos
    /\ UNCHANGED <<c, hst>>
Parties == /\ K.kind = "sumchal" /\ outcome = "none" /\ pos = Len(K.runs)
           /\ Say("ACCEPT", <<pos>>) /\ UNCHANGED <<c, hst, pos>>

TNext == Party \/ Parties \/ Update \/ Updated \/ Absorb \/ Squeeze \/ Challenges
TSpec == TInit /\ [][TNext]_tvars
================================================================================
