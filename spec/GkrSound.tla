-------------------------------- MODULE GkrSound --------------------------------
(***************************************************************************)
(* Why a GKR proof convinces, whatever the circuit, the number of layers and *)
(* of variables, and the field: a run of the verifier against any prover,    *)
(* with nothing left of it but the running claim, the value the claim should *)
(* have, and whether a coin has been lucky, that is, has turned a false      *)
(* claim into a true one.  MCGkr refines it (checked by TLC, over small      *)
(* fields); GkrSoundProof proves it.                                         *)
(***************************************************************************)
CONSTANTS F,             \* the field's elements
          Plus, Times    \* functions on pairs of elements

VARIABLES pc,            \* "round", "close", "last", "accepted", "rejected"
          claim,         \* the running claim
          right,         \* the value it is about
          sent,          \* the left and right claims the prover has sent, or <<>>
          target,        \* at the end, the values these should have
          wrong,         \* whether the first claim was false
          lucky,         \* whether some coin was lucky
          honest         \* whether the prover has followed the protocol and the statement is true
svars == <<pc, claim, right, sent, target, wrong, lucky, honest>>

Merged(vs, coin) == Plus[<<vs[1], Times[<<coin, vs[2]>>]>>]

SInit ==
    /\ pc \in {"round", "close"}
    /\ claim \in F /\ right \in F
    /\ wrong = (claim # right)
    /\ honest \in BOOLEAN /\ (honest => ~wrong)
    /\ sent = <<>> /\ target = <<>> /\ lucky = FALSE

\* the prover sends a polynomial, whose values at zero and one sum to the claim; those of
\* the true one sum to what the claim should be.  same: it is the true one; then they have
\* one sum and one value at the coin, and if not, the values may be equal only by luck
SRound ==
    /\ pc = "round"
    /\ claim' \in F /\ right' \in F
    /\ \E same \in BOOLEAN :
          /\ same => claim = right /\ claim' = right'
          /\ lucky' = (lucky \/ (~same /\ claim' = right'))
          /\ honest' = (honest /\ same)
    /\ pc' \in {"round", "close"}
    /\ UNCHANGED <<sent, target, wrong>>

\* its values do not sum to the claim
SBadRound ==
    /\ pc = "round"
    /\ \E same \in BOOLEAN :
          /\ same => claim # right
          /\ honest' = (honest /\ same)
    /\ pc' = "rejected"
    /\ UNCHANGED <<claim, right, sent, target, wrong, lucky>>

\* the claims of the layer below, and the values these should have
SSend ==
    /\ pc = "close" /\ sent = <<>>
    /\ sent' \in F \X F /\ target' \in F \X F
    /\ honest' = (honest /\ sent' = target')
    /\ UNCHANGED <<pc, claim, right, wrong, lucky>>

\* what the layer makes of the true values is what its claim should be: claims that
\* are the true values and agree with the running claim show it to be true
Agree == sent = target => claim = right

SClose ==
    /\ pc = "close" /\ sent # <<>>
    /\ Agree
    /\ \E coin \in F :
          /\ claim' = Merged(sent, coin) /\ right' = Merged(target, coin)
          /\ lucky' = (lucky \/ (sent # target /\ claim' = right'))
    /\ sent' = <<>> /\ target' = <<>>
    /\ pc' \in {"round", "close"}
    /\ UNCHANGED <<wrong, honest>>
SCloseLast ==
    /\ pc = "close" /\ sent # <<>>
    /\ Agree
    /\ pc' = "last"
    /\ UNCHANGED <<claim, right, sent, target, wrong, lucky, honest>>
\* the claims do not agree with the running claim: not all of them are true
SBadClose ==
    /\ pc = "close" /\ sent # <<>>
    /\ ~(sent = target /\ claim = right)
    /\ pc' = "rejected"
    /\ UNCHANGED <<claim, right, sent, target, wrong, lucky, honest>>
\* the verifier looks at the inputs
SFinal ==
    /\ pc = "last"
    /\ pc' = IF sent = target THEN "accepted" ELSE "rejected"
    /\ UNCHANGED <<claim, right, sent, target, wrong, lucky, honest>>

SNext == SRound \/ SBadRound \/ SSend \/ SClose \/ SCloseLast \/ SBadClose \/ SFinal
SSpec == SInit /\ [][SNext]_svars

Sound == pc = "accepted" /\ ~lucky => ~wrong
Complete == honest => pc # "rejected"
================================================================================
