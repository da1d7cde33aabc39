------------------------------ MODULE GkrSoundProof ------------------------------
(* GkrSound, proved for every field, number of layers and number of rounds (tlapm). *)
EXTENDS GkrSound, TLAPS

ASSUME Consts == /\ Plus \in [F \X F -> F] /\ Times \in [F \X F -> F]

TypeOK == /\ pc \in {"round", "close", "last", "accepted", "rejected"}
          /\ claim \in F /\ right \in F
          /\ wrong \in BOOLEAN /\ lucky \in BOOLEAN /\ honest \in BOOLEAN
          /\ \/ sent = <<>> /\ target = <<>> /\ pc \in {"round", "close", "rejected"}
             \/ sent \in F \X F /\ target \in F \X F /\ pc # "round"

\* without luck a false claim stays false
Kept == wrong /\ ~lucky => /\ pc \in {"round", "close"} => claim # right
                           /\ pc = "last" => sent # target
                           /\ pc # "accepted"
\* a prover that follows the protocol only makes true claims
Followed == honest => /\ ~wrong /\ pc # "rejected"
                      /\ pc \in {"round", "close"} => claim = right
                      /\ sent = target
Inv == TypeOK /\ Kept /\ Followed

LEMMA Empty == \A x \in F \X F : x # <<>>
  OBVIOUS

LEMMA InF == \A vs \in F \X F, coin \in F : Merged(vs, coin) \in F
  BY Consts DEF Merged

THEOREM Start == SInit => Inv
  BY DEF SInit, Inv, TypeOK, Kept, Followed

THEOREM Step == Inv /\ [SNext]_svars => Inv'
<1> SUFFICES ASSUME Inv, [SNext]_svars PROVE Inv'
  OBVIOUS
<1> USE DEF Inv, TypeOK, Kept, Followed
<1>1. CASE SRound
  BY <1>1 DEF SRound
<1>2. CASE SBadRound
  BY <1>2 DEF SBadRound
<1>3. CASE SSend
  BY <1>3, Empty DEF SSend
<1>4. CASE SClose
  <2>1. PICK coin \in F :
          /\ claim' = Merged(sent, coin) /\ right' = Merged(target, coin)
          /\ lucky' = (lucky \/ (sent # target /\ claim' = right'))
    BY <1>4 DEF SClose
  <2>2. sent \in F \X F /\ target \in F \X F
    BY <1>4 DEF SClose
  <2>3. claim' \in F /\ right' \in F
    BY <2>1, <2>2, InF
  <2>4. wrong /\ ~lucky => sent # target
    BY <1>4 DEF SClose, Agree
  <2> QED BY <1>4, <2>1, <2>2, <2>3, <2>4 DEF SClose
<1>5. CASE SCloseLast
  BY <1>5 DEF SCloseLast, Agree
<1>6. CASE SBadClose
  BY <1>6 DEF SBadClose
<1>7. CASE SFinal
  BY <1>7 DEF SFinal
<1>8. CASE UNCHANGED svars
  BY <1>8 DEF svars
<1> QED BY <1>1, <1>2, <1>3, <1>4, <1>5, <1>6, <1>7, <1>8 DEF SNext

THEOREM Safe == SSpec => [](Sound /\ Complete)
<1>1. Inv => Sound /\ Complete
  BY DEF Inv, Kept, Followed, Sound, Complete
<1> QED BY Start, Step, <1>1, PTL DEF SSpec
================================================================================
