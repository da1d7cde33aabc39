-------------------------------- MODULE RoundSync --------------------------------
(***************************************************************************)
(* The synchronisation of the multi-threaded sumcheck prover, without its   *)
(* data: who may compute what, when.  ParProver refines it (MCParProver     *)
(* checks that); RoundSyncProof proves it for any number of chunks, cores    *)
(* and rounds.                                                              *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets
CONSTANTS NbChunks, NbCores, SharedRounds
VARIABLES wpc, wround, tokens,
          mail,     \* contributions [w, k] on their way to the main process
          due,      \* due[w]: rounds whose challenge is on its way to w
          mpc,      \* "collect", "send", "merge", "past"
          mround,
          got,      \* who has contributed to mround
          count,    \* the contributions the main process has counted
          sends     \* workers the challenge still has to be sent to
vars == <<wpc, wround, tokens, mail, due, mpc, mround, got, count, sends>>
Workers == 1..NbChunks

Init == /\ wpc = [w \in Workers |-> "start"]
        /\ wround = [w \in Workers |-> 1]
        /\ tokens = NbCores
        /\ mail = {} /\ due = [w \in Workers |-> {}]
        /\ mpc = IF SharedRounds = 0 THEN "merge" ELSE "collect"
        /\ mround = 1
        /\ got = {} /\ count = 0 /\ sends = {}

WStart(w) == /\ wpc[w] = "start" /\ tokens > 0
             /\ tokens' = tokens - 1
             /\ wpc' = [wpc EXCEPT ![w] = IF SharedRounds = 0 THEN "over" ELSE "eval"]
             /\ UNCHANGED <<wround, mail, due, mpc, mround, got, count, sends>>
WEval(w) == /\ wpc[w] = "eval"
            /\ mail' = mail \cup { [w |-> w, k |-> wround[w]] }
            /\ wpc' = [wpc EXCEPT ![w] = "sent"]
            /\ UNCHANGED <<wround, tokens, due, mpc, mround, got, count, sends>>
WRelease(w) == /\ wpc[w] = "sent"
               /\ tokens' = tokens + 1
               /\ wpc' = [wpc EXCEPT ![w] = "wait"]
               /\ UNCHANGED <<wround, mail, due, mpc, mround, got, count, sends>>
\* takes whatever challenge has arrived
WFold(w) == \E k \in due[w] :
            /\ wpc[w] = "wait" /\ tokens > 0
            /\ tokens' = tokens - 1
            /\ due' = [due EXCEPT ![w] = @ \ {k}]
            /\ wround' = [wround EXCEPT ![w] = @ + 1]
            /\ wpc' = [wpc EXCEPT ![w] = IF wround[w] = SharedRounds THEN "over" ELSE "eval"]
            /\ UNCHANGED <<mail, mpc, mround, got, count, sends>>
WFinish(w) == /\ wpc[w] = "over"
              /\ tokens' = tokens + 1
              /\ wpc' = [wpc EXCEPT ![w] = "gone"]
              /\ UNCHANGED <<wround, mail, due, mpc, mround, got, count, sends>>

\* counts whatever contribution has arrived
MCollect == \E m \in mail :
            /\ mpc = "collect"
            /\ mail' = mail \ {m}
            /\ got' = got \cup {m.w}
            /\ count' = count + 1
            /\ UNCHANGED <<wpc, wround, tokens, due, mpc, mround, sends>>
MChallenge == /\ mpc = "collect" /\ count = NbChunks
              /\ sends' = Workers
              /\ mpc' = "send"
              /\ UNCHANGED <<wpc, wround, tokens, mail, due, mround, got, count>>
MSend == \E w \in sends :
         /\ mpc = "send"
         /\ due' = [due EXCEPT ![w] = @ \cup {mround}]
         /\ sends' = sends \ {w}
         /\ UNCHANGED <<wpc, wround, tokens, mail, mpc, mround, got, count>>
MNext == /\ mpc = "send" /\ sends = {}
         /\ mround' = mround + 1
         /\ got' = {} /\ count' = 0
         /\ mpc' = IF mround = SharedRounds THEN "merge" ELSE "collect"
         /\ UNCHANGED <<wpc, wround, tokens, mail, due, sends>>
MMerge == /\ mpc = "merge" /\ \A w \in Workers : wpc[w] = "gone"
          /\ mpc' = "past"
          /\ UNCHANGED <<wpc, wround, tokens, mail, due, mround, got, count, sends>>

Next == \/ \E w \in Workers : WStart(w) \/ WEval(w) \/ WRelease(w) \/ WFold(w) \/ WFinish(w)
        \/ MCollect \/ MChallenge \/ MSend \/ MNext \/ MMerge
Spec == Init /\ [][Next]_vars

Computing == { w \in Workers : wpc[w] \in {"eval", "sent", "over"} }
AtMostCores == Cardinality(Computing) <= NbCores
\* a contribution is only ever counted in its own round, and once
OwnRound == mpc = "collect" => \A m \in mail : m.k = mround /\ m.w \notin got
\* a challenge answers one contribution of every worker
Answers == mpc = "send" => got = Workers /\ count = NbChunks
\* a worker only ever folds with the challenge of its own round
OwnChallenge == \A w \in Workers : due[w] \subseteq {wround[w]}
\* the tables are merged when all have been completely folded, and nothing is left behind
Whole == mpc = "past" => /\ mail = {}
                         /\ \A w \in Workers : wpc[w] = "gone" /\ wround[w] = SharedRounds + 1 /\ due[w] = {}
\* someone can always move until the end
SomeoneMoves == \/ mpc = "past"
                \/ \E w \in Workers : \/ wpc[w] \in {"eval", "sent", "over"}
                                      \/ wpc[w] = "start" /\ tokens > 0
                                      \/ wpc[w] = "wait" /\ due[w] # {} /\ tokens > 0
                \/ mpc = "collect" /\ (mail # {} \/ count = NbChunks)
                \/ mpc = "send"
                \/ mpc = "merge" /\ \A w \in Workers : wpc[w] = "gone"
Safety == AtMostCores /\ OwnRound /\ Answers /\ OwnChallenge /\ Whole /\ SomeoneMoves
================================================================================
