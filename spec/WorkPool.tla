-------------------------------- MODULE WorkPool --------------------------------
(***************************************************************************)
(* The pools of workers of this code: circuit evaluation and table copies   *)
(* (layers.go, circuit.go), the parallel table operations (book_keeping.go) *)
(* and the multi-threaded prover (par.go), with their semaphores of         *)
(* NbCores tokens and their termination.                                    *)
(*                                                                          *)
(* A worker takes a token, computes and gives it back, NbBursts times; with  *)
(* Barrier, burst b + 1 is open only once all workers have completed burst   *)
(* b (the rounds of the prover).  It announces its end; the caller returns   *)
(* when all have, and with Closes destroys the semaphore: giving a token to  *)
(* a destroyed semaphore is a crash.  With Gated, the caller takes the token *)
(* on behalf of the worker it is about to start.  EndFirst is the defect of  *)
(* announcing the end before giving the token back.                          *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets
CONSTANTS NbWorkers, NbCores, NbBursts, Barrier, Closes, Gated, EndFirst
ASSUME Gated => NbBursts = 1
VARIABLES wpc,      \* "unborn", "idle", "compute", "computed", "over", "ended", "gone", "crash"
          burst,    \* bursts completed by each worker
          tokens, closed, started, mpc
vars == <<wpc, burst, tokens, closed, started, mpc>>
Workers == 1..NbWorkers

Init == /\ wpc = [w \in Workers |-> IF Gated THEN "unborn" ELSE "idle"]
        /\ burst = [w \in Workers |-> 0]
        /\ tokens = NbCores /\ closed = FALSE
        /\ started = IF Gated THEN 0 ELSE NbWorkers
        /\ mpc = "busy"

Open(w) == Barrier => \A x \in Workers : burst[x] >= burst[w]
\* Go's channels serve blocked receivers in turn: see Fairness
Acquire(w) == /\ wpc[w] = "idle" /\ burst[w] < NbBursts /\ Open(w) /\ tokens > 0
              /\ tokens' = tokens - 1
              /\ wpc' = [wpc EXCEPT ![w] = "compute"]
              /\ UNCHANGED <<burst, closed, started, mpc>>
Compute(w) == /\ wpc[w] = "compute"
              /\ wpc' = [wpc EXCEPT ![w] = IF EndFirst /\ burst[w] = NbBursts - 1 THEN "over" ELSE "computed"]
              /\ burst' = IF EndFirst THEN burst ELSE [burst EXCEPT ![w] = @ + 1]
              /\ UNCHANGED <<tokens, closed, started, mpc>>
Release(w) == /\ wpc[w] \in {"computed", "ended"}
              /\ IF closed THEN wpc' = [wpc EXCEPT ![w] = "crash"] /\ UNCHANGED tokens
                 ELSE /\ tokens' = tokens + 1
                      /\ wpc' = [wpc EXCEPT ![w] = IF wpc[w] = "ended" THEN "gone"
                                                   ELSE IF burst[w] = NbBursts THEN "over" ELSE "idle"]
              /\ burst' = IF EndFirst /\ wpc[w] = "computed" THEN [burst EXCEPT ![w] = @ + 1] ELSE burst
              /\ UNCHANGED <<closed, started, mpc>>
\* announces its end
End(w) == /\ wpc[w] = "over"
          /\ wpc' = [wpc EXCEPT ![w] = IF EndFirst THEN "ended" ELSE "gone"]
          /\ burst' = IF EndFirst THEN [burst EXCEPT ![w] = NbBursts] ELSE burst
          /\ UNCHANGED <<tokens, closed, started, mpc>>
Start == /\ mpc = "busy" /\ started < NbWorkers /\ tokens > 0
         /\ tokens' = tokens - 1
         /\ started' = started + 1
         /\ wpc' = [wpc EXCEPT ![started + 1] = "compute"]
         /\ UNCHANGED <<burst, closed, mpc>>
Return == /\ mpc = "busy" /\ started = NbWorkers
          /\ \A w \in Workers : wpc[w] \in {"ended", "gone", "crash"}
          /\ mpc' = "returned" /\ closed' = Closes
          /\ UNCHANGED <<wpc, burst, tokens, started>>

Next == Start \/ Return \/ \E w \in Workers : Acquire(w) \/ Compute(w) \/ Release(w) \/ End(w)
Fairness == /\ WF_vars(Start) /\ WF_vars(Return)
            /\ \A w \in Workers : SF_vars(Acquire(w)) /\ WF_vars(Compute(w)) /\ WF_vars(Release(w)) /\ WF_vars(End(w))
Spec == Init /\ [][Next]_vars /\ Fairness

Computing == { w \in Workers : wpc[w] = "compute" }
NoCrash == \A w \in Workers : wpc[w] # "crash"
Holding == IF EndFirst THEN {"compute", "computed", "over", "ended"} ELSE {"compute", "computed"}
TokensKept == tokens + Cardinality({ w \in Workers : wpc[w] \in Holding }) = NbCores
AllProcessed == mpc = "returned" => \A w \in Workers : burst[w] = NbBursts
Returns == <>(mpc = "returned")
NothingLeft == <>[](\A w \in Workers : wpc[w] = "gone")

Occ == INSTANCE Occupancy WITH inside <- Computing,
         phase <- IF mpc = "busy" THEN "running"
                  ELSE IF \A w \in Workers : wpc[w] = "gone" THEN "quiet" ELSE "returned"
\* returning and leaving nothing behind may be one step here
OccNext == \/ \E w \in Workers : Occ!OEnter(w, NbCores) \/ Occ!OLeave(w)
           \/ Occ!OReturn \/ Occ!OQuiet(Cardinality({ w \in Workers : wpc'[w] # "gone" }))
           \/ (mpc = "busy" /\ mpc' = "returned" /\ Computing = {} /\ Computing' = {})
Refines == Occ!OInit /\ [][OccNext]_<<Computing, mpc>>
================================================================================
