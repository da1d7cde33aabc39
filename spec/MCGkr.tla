--------------------------------- MODULE MCGkr ----------------------------------
(***************************************************************************)
(* Soundness and completeness of the GKR protocol of GkrVerifier.tla over a *)
(* small field, against every prover.                                       *)
(*                                                                          *)
(* The statement is one of a few circuits with all inputs/outputs of one    *)
(* instance batch; the prover sends any polynomials and claims, the         *)
(* verifier's coins are any field elements.  `lucky' records that a coin    *)
(* happened to turn a false claim into a true one (the soundness error).    *)
(*                                                                          *)
(*   Soundness:    accepted /\ ~lucky => the outputs' extension at the      *)
(*                 initial point was the true one                           *)
(*   RoundLemma:   a coin is lucky only at a root of a non-zero polynomial  *)
(*                 of the degree the layout allows                          *)
(*   Completeness: a prover that has followed the protocol is not rejected  *)
(***************************************************************************)
EXTENDS GkrVerifier, SmallField, FiniteSets, TLC

CONSTANTS Circuits,      \* sequence of circuits: sequences of layers
          BN             \* log2 of the batch size

MCNbLayers(cc) == Len(Circuits[cc])
MCLayerOf(cc, k) == Circuits[cc][k]
MCBNOf(cc) == BN

VARIABLES inp,           \* the inputs
          out,           \* the claimed outputs
          sent,          \* the last left and right claims, once sent
          lucky, honest, \* ghosts
          right, target  \* ghosts: what the running claim should be, and the last claims
vars == <<c, layer, srcs, qPrime, claim, chals, gpc, inp, out, sent, lucky, honest, right, target>>

Add  == [k |-> "add"]
Mul  == [k |-> "mul"]
Copy == [k |-> "copy"]
Lay(wires, gates) == [wires |-> wires, gates |-> gates, degs |-> [g \in 1..Len(gates) |-> GateDegrees(gates[g])]]
W(l, r, o, g) == [l |-> l, r |-> r, o |-> o, g |-> g]

N == Pow2(BN)
Width(cc) == Pow2(BGof(cc, 1))
OutWidth(cc) == Pow2(BGOut(MCLayerOf(cc, MCNbLayers(cc)).wires))
OutLayers(cc) == MCNbLayers(cc)

\* the true values below layer k
TrueValues(cc, k, v) == EvalLayers(SubSeq(Circuits[cc], 1, k - 1), v, N, 1)

\* the instance the running claim is about
RECURSIVE BindAll(_, _, _, _)
BindAll(I, hs, k, bG) == IF k > Len(hs) THEN I ELSE BindAll(Bind(I, StageOf(k, bG), hs[k]), hs, k + 1, bG)
Inst == BindAll(LayerInstance(LayerOf(c, layer), TrueValues(c, layer, inp), srcs, qPrime), chals, 1, BGof(c, layer))
TrueClaim == ClaimOf(Inst)

NextLen == PolyLen(c, layer, Len(chals) + 1)
HonestPoly ==
    LET vals == [t \in Fp |-> RoundValue(Inst, StageOf(Len(chals) + 1, BGof(c, layer)), t)]
    IN  CHOOSE cs \in [1..NextLen -> Fp] : \A t \in Fp : UniEval(cs, t) = vals[t]
TrueLeft  == Eval(TrueValues(c, layer, inp), PL \o PH)
TrueRight == Eval(TrueValues(c, layer, inp), PR \o PH)

Points(n) == [1..n -> Fp]

Init ==
    \E cc \in DOMAIN Circuits :
    \E v \in [1..(N * Width(cc)) -> {0, 1, P - 1}] :
    \E q \in {p \in Points(Log2Ceil(OutWidth(cc))) : \A i \in DOMAIN p : p[i] = 2 % P} :
    \E qp \in {p \in Points(BN) : \A i \in DOMAIN p : p[i] = 2 % P} :
    \E o \in { EvalLayers(Circuits[cc], v, N, 1) } \cup { [ EvalLayers(Circuits[cc], v, N, 1) EXCEPT ![1] = FpAdd(@, 1)] } :
        /\ GInit(cc, q, qp, o)
        /\ inp = v /\ out = o /\ sent = <<>> /\ lucky = FALSE
        /\ honest = (o = EvalLayers(Circuits[cc], v, N, 1))
        /\ right = TLCEval(Eval(EvalLayers(Circuits[cc], v, N, 1), q \o qp)) /\ target = <<>>

\* any polynomial; the honest one is not rejected if the claim is true
Round ==
    /\ gpc = "round"
    /\ LET hp == HonestPoly IN
       \E cs \in {x \in [1..NextLen -> Fp] : AtZeroAndOne(x) = claim} : \E r \in Fp :
          /\ GRound(cs, r)
          /\ honest' = (honest /\ cs = hp)
          /\ lucky' = (lucky \/ (cs # hp /\ UniEval(cs, r) = UniEval(hp, r)))
          /\ right' = UniEval(hp, r)
    /\ UNCHANGED <<inp, out, sent, target>>

BadRound ==
    /\ gpc = "round"
    /\ LET hp == HonestPoly IN
       \E cs \in {x \in [1..NextLen -> Fp] : AtZeroAndOne(x) # claim} :
          /\ GBadRound(cs)
          /\ honest' = (honest /\ cs = hp)
    /\ UNCHANGED <<inp, out, sent, lucky, right, target>>

Claims ==
    /\ gpc = "close"
    /\ sent = <<>>
    /\ target' = TLCEval(<<TrueLeft, TrueRight>>)
    /\ sent' \in Fp \X Fp
    /\ honest' = (honest /\ sent' = target')
    /\ UNCHANGED <<gvars, inp, out, lucky, right>>

Close == \E lam \in Fp :
    /\ sent # <<>>
    /\ GClose(sent[1], sent[2], lam)
    /\ right' = FAdd(target[1], FMul(lam, target[2]))
    /\ lucky' = (lucky \/ (target # sent /\ FAdd(sent[1], FMul(lam, sent[2])) = right'))
    /\ sent' = <<>> /\ target' = <<>>
    /\ UNCHANGED <<inp, out, honest>>
CloseLast == sent # <<>> /\ GCloseLast(sent[1], sent[2]) /\ UNCHANGED <<inp, out, sent, lucky, honest, right, target>>
BadClose  == sent # <<>> /\ GBadClose(sent[1], sent[2]) /\ UNCHANGED <<inp, out, sent, lucky, honest, right, target>>
Final     == sent # <<>> /\ GFinal(inp, sent[1], sent[2]) /\ UNCHANGED <<inp, out, sent, lucky, honest, right, target>>
BadFinal  == sent # <<>> /\ GBadFinal(inp, sent[1], sent[2]) /\ UNCHANGED <<inp, out, sent, lucky, honest, right, target>>

Next == Round \/ BadRound \/ Claims \/ Close \/ CloseLast \/ BadClose \/ Final \/ BadFinal
Spec == Init /\ [][Next]_vars

TrueOutput == EvalLayers(Circuits[c], inp, N, 1)
InitQQP == [i \in 1..(Log2Ceil(OutWidth(c)) + BN) |-> 2 % P]

Soundness == gpc = "accepted" /\ ~lucky => Eval(out, InitQQP) = Eval(TrueOutput, InitQQP)
Completeness == honest => gpc # "rejected"
\* without luck a false claim stays false
StaysFalse == gpc = "round" /\ ~lucky /\ Eval(out, InitQQP) # Eval(TrueOutput, InitQQP) => claim # TrueClaim
\* a round's polynomial and a layer's two claims make the next claim what it should be
RightClaim == gpc \in {"round", "close"} => right = TrueClaim

\* a wrong polynomial agrees with the true one on fewer coins than it has coefficients
RoundLemma ==
    \A d \in {2, 3, 4} : \A cs \in [1..d -> Fp] :
        (\E i \in 1..d : cs[i] # 0) => Cardinality({ r \in Fp : UniEval(cs, r) = 0 }) <= d - 1
ASSUME RoundLemma

Circ1 == << <<Lay(<<W(0, 1, 0, Mul), W(1, 1, 0, Add)>>, <<Mul, Add>>)>>,
            <<Lay(<<W(1, 0, 0, Add), W(1, 0, 1, Copy)>>, <<Add, Copy>>)>> >>
Circ2 == << <<Lay(<<W(0, 0, 0, Add)>>, <<Add>>), Lay(<<W(0, 0, 0, Copy)>>, <<Copy>>)>> >>
Circ3 == << <<Lay(<<W(0, 0, 0, Mul)>>, <<Mul>>)>> >>

(***************************************************************************)
(* The protocol refines GkrSound, where the theorem is proved for every     *)
(* circuit, number of rounds and field.                                     *)
(***************************************************************************)
GS == INSTANCE GkrSound WITH
    F <- Fp,
    Plus <- [x \in Fp \X Fp |-> FpAdd(x[1], x[2])], Times <- [x \in Fp \X Fp |-> FpMul(x[1], x[2])],
    pc <- IF gpc = "final" THEN "last" ELSE gpc,
    wrong <- Eval(out, InitQQP) # Eval(TrueOutput, InitQQP)
RefinesSound == GS!SSpec
================================================================================
