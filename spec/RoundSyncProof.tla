----------------------------- MODULE RoundSyncProof -----------------------------
(* RoundSync, proved for any number of chunks, cores and shared rounds (tlapm). *)
EXTENDS RoundSync, FiniteSetTheorems, TLAPS

ASSUME Consts == NbChunks \in Nat \ {0} /\ NbCores \in Nat \ {0} /\ SharedRounds \in Nat

TypeOK == /\ wpc \in [Workers -> {"start", "eval", "sent", "wait", "over", "gone"}]
          /\ wround \in [Workers -> Nat] /\ tokens \in Nat
          /\ mail \subseteq [w : Workers, k : Nat]
          /\ due \in [Workers -> SUBSET Nat]
          /\ mpc \in {"collect", "send", "merge", "past"}
          /\ mround \in Nat \ {0} /\ got \subseteq Workers /\ count \in Nat /\ sends \subseteq Workers

Posted(w) == [w |-> w, k |-> wround[w]] \in mail
\* the round the last challenge sent to w has opened
Open(w) == IF mpc = "send" /\ w \notin sends THEN mround + 1 ELSE mround
\* w has been given a challenge that it has not folded with yet
Behind(w) == /\ wround[w] + 1 = Open(w) /\ wpc[w] \in {"sent", "wait"}
             /\ due[w] = {wround[w]} /\ ~Posted(w)
             /\ mpc # "past"
             /\ wround[w] \in 1..SharedRounds
             /\ mpc = "collect" => w \notin got
             /\ mpc = "send" => w \notin sends
InRound(w) == /\ wround[w] = Open(w) /\ wround[w] \in 1..SharedRounds /\ due[w] = {}
              /\ mpc \in {"collect", "send"}
              /\ \/ /\ wpc[w] \in {"start", "eval"} /\ ~Posted(w) /\ (wpc[w] = "start" => mround = 1 /\ Open(w) = 1)
                    /\ mpc = "collect" => w \notin got
                    /\ mpc = "send" => w \notin sends
                 \/ /\ wpc[w] \in {"sent", "wait"}
                    /\ mpc = "collect" => (Posted(w) <=> w \notin got)
                    /\ mpc = "send" => (Posted(w) <=> w \notin sends)
Finished(w) == /\ wround[w] = SharedRounds + 1 /\ Open(w) = SharedRounds + 1 /\ due[w] = {} /\ ~Posted(w)
               /\ wpc[w] \in {"over", "gone"}
               /\ mpc = "past" => wpc[w] = "gone"
NotBegun(w) == SharedRounds = 0 /\ wround[w] = 1 /\ mround = 1 /\ mpc = "merge" /\ wpc[w] = "start"
               /\ due[w] = {} /\ ~Posted(w)

Inv == /\ TypeOK
       /\ tokens + Cardinality(Computing) = NbCores
       /\ count = Cardinality(got)
       /\ mpc = "send" => got = Workers
       /\ mpc # "send" => sends = {}
       /\ mpc \in {"merge", "past"} <=> mround = SharedRounds + 1
       /\ mround \in 1..(SharedRounds + 1)
       /\ \A m \in mail : m.k = wround[m.w]
       /\ \A w \in Workers : Behind(w) \/ InRound(w) \/ Finished(w) \/ NotBegun(w)

LEMMA FinW == IsFiniteSet(Workers) /\ Cardinality(Workers) = NbChunks
<1>1. NbChunks \in Int /\ 1 \in Int /\ NbChunks - 1 + 1 = NbChunks BY Consts
<1> QED BY <1>1, FS_Interval, Consts DEF Workers

LEMMA Fin == IsFiniteSet(Computing) /\ Cardinality(Computing) \in Nat
<1>1. Computing \subseteq Workers BY DEF Computing
<1> QED BY <1>1, FinW, FS_Subset, FS_CardinalityType

LEMMA FinG == ASSUME got \subseteq Workers
              PROVE /\ IsFiniteSet(got) /\ Cardinality(got) \in Nat
                    /\ Cardinality(got) = NbChunks => got = Workers
<1>1. IsFiniteSet(got) BY FinW, FS_Subset
<1>2. Cardinality(got) \in Nat BY <1>1, FS_CardinalityType
<1>3. Cardinality(got) = NbChunks => got = Workers BY FinW, FS_Subset
<1> QED BY <1>1, <1>2, <1>3

THEOREM InitInv == Init => Inv
<1> SUFFICES ASSUME Init PROVE Inv OBVIOUS
<1> USE Consts
<1>1. Computing = {} BY DEF Init, Computing
<1>2. Cardinality(Computing) = 0 /\ Cardinality(got) = 0 BY <1>1, FS_EmptySet DEF Init
<1>3. TypeOK BY DEF Init, TypeOK
<1>4. ASSUME NEW w \in Workers PROVE InRound(w) \/ NotBegun(w)
  BY <1>4 DEF Init, InRound, NotBegun, Open, Posted
<1> QED BY <1>2, <1>3, <1>4 DEF Init, Inv

THEOREM NextInv == Inv /\ [Next]_vars => Inv'
<1> SUFFICES ASSUME Inv, [Next]_vars PROVE Inv' OBVIOUS
<1> USE Consts
<1>f. IsFiniteSet(Computing) /\ Cardinality(Computing) \in Nat BY Fin
<1>g. IsFiniteSet(got) /\ Cardinality(got) \in Nat BY FinG DEF Inv, TypeOK
<1> DEFINE At(x) == Behind(x) \/ InRound(x) \/ Finished(x) \/ NotBegun(x)
<1>a. \A x \in Workers : At(x) BY DEF Inv
<1>1. CASE UNCHANGED vars
  <2>1. Computing' = Computing BY <1>1 DEF vars, Computing, Workers
  <2> QED BY <1>1, <2>1 DEF Inv, TypeOK, vars, Workers, Behind, InRound, Finished, NotBegun, Open, Posted
<1>2. ASSUME NEW w \in Workers, WStart(w) PROVE Inv'
  <2>1. Computing' = Computing \cup {w} /\ w \notin Computing BY <1>2 DEF WStart, Computing, Inv, TypeOK
  <2>2. Cardinality(Computing') = Cardinality(Computing) + 1 BY <2>1, <1>f, FS_AddElement
  <2>3. TypeOK' BY <1>2 DEF WStart, Inv, TypeOK
  <2>4. ASSUME NEW x \in Workers PROVE At(x)'
    BY <1>2, <1>a, <2>4 DEF WStart, Inv, TypeOK, Behind, InRound, Finished, NotBegun, Open, Posted
  <2> QED BY <1>2, <1>f, <2>2, <2>3, <2>4 DEF WStart, Inv, TypeOK
<1>3. ASSUME NEW w \in Workers, WEval(w) PROVE Inv'
  <2>1. Computing' = Computing BY <1>3 DEF WEval, Computing, Inv, TypeOK
  <2>3. TypeOK' BY <1>3 DEF WEval, Inv, TypeOK
  <2>4. ASSUME NEW x \in Workers PROVE At(x)'
    BY <1>3, <1>a, <2>4 DEF WEval, Inv, TypeOK, Behind, InRound, Finished, NotBegun, Open, Posted
  <2> QED BY <1>3, <1>f, <2>1, <2>3, <2>4 DEF WEval, Inv, TypeOK
<1>4. ASSUME NEW w \in Workers, WRelease(w) PROVE Inv'
  <2>1. Computing' = Computing \ {w} /\ w \in Computing BY <1>4 DEF WRelease, Computing, Inv, TypeOK
  <2>2. Cardinality(Computing') = Cardinality(Computing) - 1 BY <2>1, <1>f, FS_RemoveElement
  <2>3. TypeOK' BY <1>4 DEF WRelease, Inv, TypeOK
  <2>4. ASSUME NEW x \in Workers PROVE At(x)'
    BY <1>4, <1>a, <2>4 DEF WRelease, Inv, TypeOK, Behind, InRound, Finished, NotBegun, Open, Posted
  <2> QED BY <1>4, <1>f, <2>2, <2>3, <2>4 DEF WRelease, Inv, TypeOK
<1>5. ASSUME NEW w \in Workers, WFold(w) PROVE Inv'
  <2>1. Computing' = Computing \cup {w} /\ w \notin Computing BY <1>5 DEF WFold, Computing, Inv, TypeOK
  <2>2. Cardinality(Computing') = Cardinality(Computing) + 1 BY <2>1, <1>f, FS_AddElement
  <2>3. TypeOK' BY <1>5 DEF WFold, Inv, TypeOK
  <2>5. Behind(w) BY <1>5, <1>a DEF WFold, Behind, InRound, Finished, NotBegun
  <2>6. due'[w] = {} /\ wround'[w] = wround[w] + 1 BY <1>5, <2>5 DEF WFold, Behind, Inv, TypeOK
  <2>7. wpc'[w] = IF wround[w] = SharedRounds THEN "over" ELSE "eval" BY <1>5 DEF WFold, Inv, TypeOK
  <2>8. \A m \in mail : m.w # w BY <2>5 DEF Behind, Posted, Inv, TypeOK
  <2>4. ASSUME NEW x \in Workers PROVE At(x)'
    <3>1. CASE x = w
      <4>1. ~Posted(w)' BY <1>5, <2>8 DEF WFold, Posted
      <4>2. Open(w)' = Open(w) /\ wround'[w] = Open(w) BY <1>5, <2>5, <2>6 DEF WFold, Open, Behind
      <4>3. CASE wround[w] = SharedRounds
        <5>1. Finished(w)' BY <1>5, <2>5, <2>6, <2>7, <4>1, <4>2, <4>3 DEF WFold, Behind, Finished
        <5> QED BY <5>1, <3>1
      <4>4. CASE wround[w] # SharedRounds
        <5>1. wround'[w] \in 1..SharedRounds BY <2>5, <2>6, <4>4 DEF Behind
        <5>2. mpc \in {"collect", "send"} BY <5>1, <4>2, <2>5 DEF Behind, Open, Inv, TypeOK
        <5>3. wpc'[w] = "eval" BY <2>7, <4>4
        <5>4. InRound(w)' BY <1>5, <2>5, <2>6, <4>1, <4>2, <5>1, <5>2, <5>3 DEF WFold, Behind, InRound
        <5> QED BY <5>4, <3>1
      <4> QED BY <4>3, <4>4
    <3>2. CASE x # w
      BY <1>5, <1>a, <3>2, <2>4 DEF WFold, Inv, TypeOK, Behind, InRound, Finished, NotBegun, Open, Posted
    <3> QED BY <3>1, <3>2
  <2>9. \A m \in mail' : m.k = wround'[m.w] BY <1>5, <2>8 DEF WFold, Inv, TypeOK
  <2> QED BY <1>5, <1>f, <2>2, <2>3, <2>4, <2>9 DEF WFold, Inv, TypeOK
<1>6. ASSUME NEW w \in Workers, WFinish(w) PROVE Inv'
  <2>1. Computing' = Computing \ {w} /\ w \in Computing BY <1>6 DEF WFinish, Computing, Inv, TypeOK
  <2>2. Cardinality(Computing') = Cardinality(Computing) - 1 BY <2>1, <1>f, FS_RemoveElement
  <2>3. TypeOK' BY <1>6 DEF WFinish, Inv, TypeOK
  <2>4. ASSUME NEW x \in Workers PROVE At(x)'
    BY <1>6, <1>a, <2>4 DEF WFinish, Inv, TypeOK, Behind, InRound, Finished, NotBegun, Open, Posted
  <2> QED BY <1>6, <1>f, <2>2, <2>3, <2>4 DEF WFinish, Inv, TypeOK
<1>7. CASE MCollect
  <2>0. PICK m \in mail : /\ mpc = "collect" /\ mail' = mail \ {m} /\ got' = got \cup {m.w} /\ count' = count + 1
                          /\ UNCHANGED <<wpc, wround, tokens, due, mpc, mround, sends>>
    BY <1>7 DEF MCollect
  <2>1. Computing' = Computing BY <2>0 DEF Computing, Workers
  <2>2. m.w \in Workers /\ m.k = wround[m.w] /\ m = [w |-> m.w, k |-> m.k] BY DEF Inv, TypeOK
  <2>3. Posted(m.w) BY <2>2 DEF Posted
  <2>4. m.w \notin got BY <2>0, <2>2, <2>3, <1>a DEF Behind, InRound, Finished, NotBegun
  <2>5. Cardinality(got') = Cardinality(got) + 1 BY <2>0, <2>4, <1>g, FS_AddElement
  <2>6. TypeOK' BY <2>0, <2>2 DEF Inv, TypeOK
  <2>7. ASSUME NEW x \in Workers PROVE At(x)'
    <3>1. CASE x = m.w
      BY <2>0, <2>2, <2>3, <2>4, <1>a, <3>1 DEF Inv, TypeOK, Behind, InRound, Finished, NotBegun, Open, Posted
    <3>2. CASE x # m.w
      BY <2>0, <2>2, <1>a, <3>2, <2>7 DEF Inv, TypeOK, Behind, InRound, Finished, NotBegun, Open, Posted
    <3> QED BY <3>1, <3>2
  <2> QED BY <2>0, <1>f, <1>g, <2>1, <2>5, <2>6, <2>7 DEF Inv, TypeOK
<1>8. CASE MChallenge
  <2>1. Computing' = Computing BY <1>8 DEF MChallenge, Computing, Workers
  <2>2. got = Workers BY <1>8, FinG DEF MChallenge, Inv, TypeOK
  <2>6. TypeOK' BY <1>8 DEF MChallenge, Inv, TypeOK
  <2>7. ASSUME NEW x \in Workers PROVE At(x)'
    BY <1>8, <2>2, <1>a, <2>7 DEF MChallenge, Inv, TypeOK, Behind, InRound, Finished, NotBegun, Open, Posted
  <2> QED BY <1>8, <1>f, <1>g, <2>1, <2>2, <2>6, <2>7 DEF MChallenge, Inv, TypeOK
<1>9. CASE MSend
  <2>0. PICK w \in sends : /\ mpc = "send" /\ due' = [due EXCEPT ![w] = @ \cup {mround}] /\ sends' = sends \ {w}
                           /\ UNCHANGED <<wpc, wround, tokens, mail, mpc, mround, got, count>>
    BY <1>9 DEF MSend
  <2>1. Computing' = Computing BY <2>0 DEF Computing, Workers
  <2>6. TypeOK' BY <2>0 DEF Inv, TypeOK
  <2>7. ASSUME NEW x \in Workers PROVE At(x)'
    <3>1. CASE x = w
      <4>1. wround[w] = mround /\ due[w] = {} /\ wpc[w] \in {"sent", "wait"} /\ ~Posted(w) /\ w \in Workers
            /\ wround[w] \in 1..SharedRounds
        BY <2>0, <1>a DEF Inv, TypeOK, Behind, InRound, Finished, NotBegun, Open
      <4>2. due'[w] = {mround} BY <2>0, <4>1 DEF Inv, TypeOK
      <4> QED BY <2>0, <4>1, <4>2, <3>1 DEF Behind, Open, Posted, Inv, TypeOK
    <3>2. CASE x # w
      BY <2>0, <1>a, <3>2, <2>7 DEF Inv, TypeOK, Behind, InRound, Finished, NotBegun, Open, Posted
    <3> QED BY <3>1, <3>2
  <2> QED BY <2>0, <1>f, <1>g, <2>1, <2>6, <2>7 DEF Inv, TypeOK
<1>10. CASE MNext
  <2>1. Computing' = Computing BY <1>10 DEF MNext, Computing, Workers
  <2>2. Cardinality(got') = 0 BY <1>10, FS_EmptySet DEF MNext
  <2>6. TypeOK' BY <1>10 DEF MNext, Inv, TypeOK
  <2>7. ASSUME NEW x \in Workers PROVE At(x)'
    BY <1>10, <1>a, <2>7 DEF MNext, Inv, TypeOK, Behind, InRound, Finished, NotBegun, Open, Posted
  <2>8. mround <= SharedRounds BY <1>10 DEF MNext, Inv, TypeOK
  <2> QED BY <1>10, <1>f, <1>g, <2>1, <2>2, <2>6, <2>7, <2>8 DEF MNext, Inv, TypeOK
<1>11. CASE MMerge
  <2>1. Computing' = Computing BY <1>11 DEF MMerge, Computing, Workers
  <2>6. TypeOK' BY <1>11 DEF MMerge, Inv, TypeOK
  <2>7. ASSUME NEW x \in Workers PROVE At(x)'
    BY <1>11, <1>a, <2>7 DEF MMerge, Inv, TypeOK, Behind, InRound, Finished, NotBegun, Open, Posted
  <2> QED BY <1>11, <1>f, <1>g, <2>1, <2>6, <2>7 DEF MMerge, Inv, TypeOK
<1> QED BY <1>1, <1>2, <1>3, <1>4, <1>5, <1>6, <1>7, <1>8, <1>9, <1>10, <1>11 DEF Next

THEOREM Safe == Inv => Safety
<1> SUFFICES ASSUME Inv PROVE Safety OBVIOUS
<1> USE Consts
<1>f. IsFiniteSet(Computing) /\ Cardinality(Computing) \in Nat BY Fin
<1>a. \A x \in Workers : Behind(x) \/ InRound(x) \/ Finished(x) \/ NotBegun(x) BY DEF Inv
<1>m. ASSUME NEW m \in mail PROVE m.w \in Workers /\ m.k = wround[m.w] /\ Posted(m.w)
  BY DEF Inv, TypeOK, Posted
<1>1. AtMostCores BY <1>f DEF AtMostCores, Inv, TypeOK
<1>2. OwnRound BY <1>a, <1>m DEF OwnRound, Inv, TypeOK, Behind, InRound, Finished, NotBegun, Open
<1>3. Answers BY FinW DEF Answers, Inv
<1>4. OwnChallenge BY <1>a DEF OwnChallenge, Behind, InRound, Finished, NotBegun
<1>5. Whole
  <2> SUFFICES ASSUME mpc = "past" PROVE mail = {} /\ \A w \in Workers : wpc[w] = "gone" /\ wround[w] = SharedRounds + 1 /\ due[w] = {}
    BY DEF Whole
  <2>1. \A w \in Workers : Finished(w) BY <1>a DEF Behind, InRound, NotBegun
  <2> QED BY <2>1, <1>m DEF Finished
<1>6. SomeoneMoves
  <2> SUFFICES ASSUME mpc # "past", mpc # "send",
                      \A w \in Workers : wpc[w] \notin {"eval", "sent", "over"}
               PROVE SomeoneMoves
    BY DEF SomeoneMoves
  <2>1. Computing = {} BY DEF Computing
  <2>2. tokens = NbCores /\ tokens > 0 BY <2>1, FS_EmptySet DEF Inv, TypeOK
  <2>3. CASE \E w \in Workers : wpc[w] = "start" \/ due[w] # {}
    <3>1. PICK w \in Workers : wpc[w] = "start" \/ due[w] # {} BY <2>3
    <3>2. wpc[w] = "start" \/ (wpc[w] = "wait" /\ due[w] # {})
      BY <3>1, <1>a DEF Behind, InRound, Finished, NotBegun
    <3> QED BY <3>2, <2>2 DEF SomeoneMoves
  <2>4. CASE \A w \in Workers : wpc[w] # "start" /\ due[w] = {}
    <3>1. \A w \in Workers : (InRound(w) /\ wpc[w] = "wait") \/ (Finished(w) /\ wpc[w] = "gone")
      BY <2>4, <1>a DEF Behind, InRound, Finished, NotBegun
    <3>2. CASE mpc = "merge"
      BY <3>1, <3>2 DEF SomeoneMoves, InRound
    <3>3. CASE mpc = "collect"
      <4>1. \A w \in Workers : InRound(w) /\ wpc[w] = "wait"
        BY <3>1, <3>3 DEF Finished, Open, Inv, TypeOK
      <4>2. CASE mail = {}
        <5>1. \A w \in Workers : w \in got BY <4>1, <4>2, <3>3 DEF InRound, Posted
        <5>2. got = Workers BY <5>1 DEF Inv, TypeOK
        <5> QED BY <5>2, FinW, <3>3 DEF Inv, SomeoneMoves
      <4> QED BY <4>2, <3>3 DEF SomeoneMoves
    <3> QED BY <3>2, <3>3 DEF Inv, TypeOK
  <2> QED BY <2>3, <2>4
<1> QED BY <1>1, <1>2, <1>3, <1>4, <1>5, <1>6 DEF Safety

THEOREM Spec => []Safety
BY InitInv, NextInv, Safe, PTL DEF Spec
================================================================================
