-------------------------------- MODULE ParProver -------------------------------
(***************************************************************************)
(* The multi-threaded sumcheck prover (sumcheck/par.go).                    *)
(*                                                                          *)
(* The tables over h' are cut into interleaved chunks, one worker each.     *)
(* A worker holds one of NbCores tokens while it computes.  In each round   *)
(* it sends the evaluations of its share of the round polynomial to the     *)
(* main process, gives its token back, waits for the challenge, takes a     *)
(* token again and folds its tables.  The main process collects one message *)
(* per worker, adds them up, derives the challenge and broadcasts it.  When *)
(* the workers' tables are completely folded they hand them over, and the   *)
(* main process finishes the last variables of h' alone.                    *)
(*                                                                          *)
(* The refinement of SumcheckProver on the unchunked tables is stated by    *)
(* the invariants at the end.                                               *)
(***************************************************************************)
EXTENDS SumcheckDefs

CONSTANTS Whole,        \* the instance
          NbChunks, NbCores,
          NbPoints,     \* number of evaluations that represent a round polynomial
          Coins         \* possible challenges

VARIABLES sub,      \* sub[w]: the instance of worker w, as folded so far
          wpc,      \* wpc[w]: "start", "eval", "wait", "resume", "fold", "over", "gone"
          wround,   \* wround[w]: the round worker w is in
          tokens,   \* free tokens
          evals,    \* bag of messages [w, round, vals] on their way to the main process
          rchan,    \* rchan[w]: challenges on their way to worker w
          fins,     \* workers that have handed their tables over
          mpc,      \* "collect", "send", "merge", "alone", "done"
          mround,   \* the main process's round
          got,      \* who has contributed to mround so far, in order
          acc,      \* sum of the contributions to mround
          sends,    \* workers the challenge still has to be sent to
          coins,    \* challenges so far
          sums,     \* accumulated evaluations of each completed round
          merged    \* the instance of the main process, once merged
vars == <<sub, wpc, wround, tokens, evals, rchan, fins, mpc, mround, got, acc, sends, coins, sums, merged>>

Workers == 1..NbChunks
LogChunks == Log2Ceil(NbChunks)
BG == Log2Ceil(NbL(Whole))
BN == Log2Ceil(NbH(Whole))
SharedRounds == 2 * BG + BN - LogChunks
AllRounds == 2 * BG + BN

ChunkOf(I, w) == [I EXCEPT !.vL = Chunk(@, w, NbChunks), !.vR = Chunk(@, w, NbChunks), !.eq = Chunk(@, w, NbChunks)]
EvalsOf(I, k) == [t \in 1..NbPoints |-> RoundValue(I, StageOf(k, BG), FNat(t - 1))]
Zeroes == [t \in 1..NbPoints |-> FZero]

Init ==
    /\ sub = [w \in Workers |-> ChunkOf(Whole, w)]
    /\ wpc = [w \in Workers |-> "start"]
    /\ wround = [w \in Workers |-> 1]
    /\ tokens = NbCores
    /\ evals = {}
    /\ rchan = [w \in Workers |-> <<>>]
    /\ fins = {}
    /\ mpc = IF SharedRounds = 0 THEN "merge" ELSE "collect"
    /\ mround = 1
    /\ got = <<>> /\ acc = Zeroes /\ sends = {} /\ coins = <<>> /\ sums = <<>>
    /\ merged = <<>>

(* ---- workers ---- *)
WStart(w) ==
    /\ wpc[w] = "start" /\ tokens > 0
    /\ tokens' = tokens - 1
    /\ wpc' = [wpc EXCEPT ![w] = IF SharedRounds = 0 THEN "over" ELSE "eval"]
    /\ UNCHANGED <<sub, wround, evals, rchan, fins, mpc, mround, got, acc, sends, coins, sums, merged>>
\* computes, sends and gives the token back
WEval(w) ==
    /\ wpc[w] = "eval"
    /\ evals' = evals \cup { [w |-> w, k |-> wround[w], vals |-> EvalsOf(sub[w], wround[w])] }
    /\ wpc' = [wpc EXCEPT ![w] = "sent"]
    /\ UNCHANGED <<sub, wround, tokens, rchan, fins, mpc, mround, got, acc, sends, coins, sums, merged>>
WRelease(w) ==
    /\ wpc[w] = "sent"
    /\ tokens' = tokens + 1
    /\ wpc' = [wpc EXCEPT ![w] = "wait"]
    /\ UNCHANGED <<sub, wround, evals, rchan, fins, mpc, mround, got, acc, sends, coins, sums, merged>>
\* with the challenge and a token
WFold(w) ==
    /\ wpc[w] = "wait" /\ rchan[w] # <<>> /\ tokens > 0
    /\ tokens' = tokens - 1
    /\ sub' = [sub EXCEPT ![w] = Bind(@, StageOf(wround[w], BG), Head(rchan[w]))]
    /\ rchan' = [rchan EXCEPT ![w] = Tail(@)]
    /\ wround' = [wround EXCEPT ![w] = @ + 1]
    /\ wpc' = [wpc EXCEPT ![w] = IF wround[w] = SharedRounds THEN "over" ELSE "eval"]
    /\ UNCHANGED <<evals, fins, mpc, mround, got, acc, sends, coins, sums, merged>>
WFinish(w) ==
    /\ wpc[w] = "over"
    /\ fins' = fins \cup {w}
    /\ tokens' = tokens + 1
    /\ wpc' = [wpc EXCEPT ![w] = "gone"]
    /\ UNCHANGED <<sub, wround, evals, rchan, mpc, mround, got, acc, sends, coins, sums, merged>>

(* ---- main process ---- *)
\* takes any message
MCollect == \E m \in evals :
    /\ mpc = "collect"
    /\ evals' = evals \ {m}
    /\ got' = Append(got, [w |-> m.w, k |-> m.k])
    /\ acc' = TabAdd(acc, m.vals)
    /\ UNCHANGED <<sub, wpc, wround, tokens, rchan, fins, mround, sends, coins, sums, merged, mpc>>
MChallenge == \E r \in Coins :
    /\ mpc = "collect" /\ Len(got) = NbChunks
    /\ coins' = Append(coins, r)
    /\ sums' = Append(sums, acc)
    /\ sends' = Workers
    /\ mpc' = "send"
    /\ UNCHANGED <<sub, wpc, wround, tokens, evals, rchan, fins, mround, got, acc, merged>>
MSend == \E w \in sends :
    /\ mpc = "send"
    /\ rchan' = [rchan EXCEPT ![w] = Append(@, coins[mround])]
    /\ sends' = sends \ {w}
    /\ UNCHANGED <<sub, wpc, wround, tokens, evals, fins, mpc, mround, got, acc, coins, sums, merged>>
MNext ==
    /\ mpc = "send" /\ sends = {}
    /\ mround' = mround + 1
    /\ got' = <<>> /\ acc' = Zeroes
    /\ mpc' = IF mround = SharedRounds THEN "merge" ELSE "collect"
    /\ UNCHANGED <<sub, wpc, wround, tokens, evals, rchan, fins, sends, coins, sums, merged>>
MMerge ==
    /\ mpc = "merge" /\ fins = Workers
    /\ merged' = [sub[1] EXCEPT !.vL = [w \in Workers |-> sub[w].vL[1]],
                                !.vR = [w \in Workers |-> sub[w].vR[1]],
                                !.eq = [w \in Workers |-> sub[w].eq[1]]]
    /\ mpc' = IF mround > AllRounds THEN "done" ELSE "alone"
    /\ UNCHANGED <<sub, wpc, wround, tokens, evals, rchan, fins, mround, got, acc, sends, coins, sums>>
MAlone == \E r \in Coins :
    /\ mpc = "alone"
    /\ sums' = Append(sums, EvalsOf(merged, mround))
    /\ coins' = Append(coins, r)
    /\ merged' = Bind(merged, "H", r)
    /\ mround' = mround + 1
    /\ mpc' = IF mround = AllRounds THEN "done" ELSE "alone"
    /\ UNCHANGED <<sub, wpc, wround, tokens, evals, rchan, fins, got, acc, sends>>

Next == \/ \E w \in Workers : WStart(w) \/ WEval(w) \/ WRelease(w) \/ WFold(w) \/ WFinish(w)
        \/ MCollect \/ MChallenge \/ MSend \/ MNext \/ MMerge \/ MAlone

Fairness == /\ \A w \in Workers : WF_vars(WEval(w)) /\ WF_vars(WRelease(w)) /\ WF_vars(WFinish(w))
            \* Go's channels serve blocked receivers in turn
            /\ \A w \in Workers : SF_vars(WStart(w)) /\ SF_vars(WFold(w))
            /\ WF_vars(MCollect) /\ WF_vars(MChallenge) /\ WF_vars(MSend) /\ WF_vars(MNext)
            /\ WF_vars(MMerge) /\ WF_vars(MAlone)
Spec == Init /\ [][Next]_vars /\ Fairness

(* ---- what it guarantees ---- *)
Computing == { w \in Workers : wpc[w] \in {"eval", "sent", "over"} }
AtMostCores == Cardinality(Computing) <= NbCores /\ tokens + Cardinality(Computing) = NbCores

\* a challenge answers exactly one contribution of every worker to its own round
Barrier ==
    /\ \A i \in 1..Len(got) : got[i].k = mround
    /\ \A i, j \in 1..Len(got) : got[i].w = got[j].w => i = j
    /\ mpc = "send" => { got[i].w : i \in 1..Len(got) } = Workers
\* no worker is ahead of the challenges
InStep == \A w \in Workers : wround[w] <= Len(coins) + 1

RECURSIVE BindAll(_, _, _)
BindAll(I, rs, k) == IF k > Len(rs) THEN I ELSE BindAll(Bind(I, StageOf(k, BG), rs[k]), rs, k + 1)
\* the accumulated evaluations are those of the round polynomials of the whole instance
Refines ==
    /\ \A k \in 1..Len(sums) : sums[k] = EvalsOf(BindAll(Whole, SubSeq(coins, 1, k - 1), 1), k)
    /\ mpc = "done" => FinalClaims(merged) = FinalClaims(BindAll(Whole, coins, 1))
\* the parts are, at all times, the parts of the whole
PartsOfWhole ==
    \A w \in Workers : sub[w] = ChunkOf(BindAll(Whole, SubSeq(coins, 1, wround[w] - 1), 1), w)

Quiet == evals = {} /\ \A w \in Workers : rchan[w] = <<>> /\ wpc[w] = "gone"
DoneIsQuiet == mpc = "done" => Quiet

\* without the data, it is RoundSync
Sync == INSTANCE RoundSync WITH
          mail <- { [w |-> m.w, k |-> m.k] : m \in evals },
          due <- [w \in Workers |-> { wround[w] + i - 1 : i \in 1..Len(rchan[w]) }],
          mpc <- IF mpc \in {"alone", "done"} THEN "past" ELSE mpc,
          mround <- IF mround > SharedRounds THEN SharedRounds + 1 ELSE mround,
          got <- { got[i].w : i \in 1..Len(got) },
          count <- Len(got)
RefinesSync == Sync!Spec

Terminates == <>[](mpc = "done" /\ Quiet)
================================================================================
