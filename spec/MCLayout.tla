-------------------------------- MODULE MCLayout ---------------------------------
(***************************************************************************)
(* Why the layout of a proof is checked before it is read (C04).            *)
(*                                                                          *)
(* A reader goes through a proof of any layout as gkr.Verifier does: for     *)
(* each layer of the circuit, from the output layer down, all polynomials    *)
(* there are, then the two claims.  When the layout is the expected one,     *)
(*   NoCrash:   nothing is missing that is looked at                        *)
(*   ReadAll:   everything in the proof has been looked at                  *)
(*   InDegree:  no polynomial is of a degree beyond that of the layer        *)
(*   Complete:  nothing the prover sends is refused                         *)
(* A reader that does not check the layout has none of the first three.     *)
(***************************************************************************)
EXTENDS GkrLayout, SmallField, FiniteSets, TLC

CONSTANTS Circuits, BN, Checked

MCNbLayers(cc) == Len(Circuits[cc])
MCLayerOf(cc, k) == Circuits[cc][k]
MCBNOf(cc) == BN

VARIABLES st,          \* the statement
          polys,       \* polys[k][i]: the number of coefficients of polynomial i of layer k
          nL, nR,      \* the numbers of left and right claims
          at,          \* the layer being read
          seen,        \* what has been read
          pc           \* "check", "polys", "split", "claims", "refused", "read", "crash"
vars == <<st, polys, nL, nR, at, seen, pc>>

Add  == [k |-> "add"]
Mul  == [k |-> "mul"]
Copy == [k |-> "copy"]
Lay(wires, gates) == [wires |-> wires, gates |-> gates, degs |-> [g \in 1..Len(gates) |-> GateDegrees(gates[g])]]
W(l, r, o, g) == [l |-> l, r |-> r, o |-> o, g |-> g]

\* the lengths a polynomial may come with: the right ones of the circuit, one less, one more, none
Lens(s) == {0} \cup UNION { {PolyLen(s, k, i) - 1, PolyLen(s, k, i), PolyLen(s, k, i) + 1} :
                            <<k, i>> \in { x \in (1..NbLayers(s)) \X (1..4) : x[2] <= RoundsOf(s, x[1]) } }
MaxRounds(s) == MaxOf({ RoundsOf(s, k) : k \in 1..NbLayers(s) })
LayerShapes(s) == UNION { [1..n -> Lens(s)] : n \in 0..(MaxRounds(s) + 1) }

Init ==
    /\ st \in DOMAIN Circuits
    /\ polys \in UNION { [1..n -> LayerShapes(st)] : n \in 0..(NbLayers(st) + 1) }
    /\ nL \in 0..(NbLayers(st) + 1) /\ nR \in 0..(NbLayers(st) + 1)
    /\ at = NbLayers(st) /\ seen = {} /\ pc = "check"

Expected == WellFormed(st, polys, nL, nR)

Check ==
    /\ pc = "check"
    /\ pc' = IF Checked /\ ~Expected THEN "refused" ELSE "polys"
    /\ UNCHANGED <<st, polys, nL, nR, at, seen>>

\* the round polynomials of the layer: as many as there are
ReadPolys ==
    /\ pc = "polys"
    /\ IF at > Len(polys) \/ (at <= Len(polys) /\ \E i \in DOMAIN polys[at] : polys[at][i] = 0)
       THEN pc' = "crash" /\ UNCHANGED seen
       ELSE /\ seen' = seen \cup { <<"poly", at, i>> : i \in DOMAIN polys[at] }
            /\ pc' = "split"
    /\ UNCHANGED <<st, polys, nL, nR, at>>

\* the challenges are split into the points on the left, on the right and on the instances
Split ==
    /\ pc = "split"
    /\ pc' = IF Len(polys[at]) < RoundsOf(st, at) THEN "crash" ELSE "claims"
    /\ UNCHANGED <<st, polys, nL, nR, at, seen>>

ReadClaims ==
    /\ pc = "claims"
    /\ IF at > nL \/ at > nR
       THEN pc' = "crash" /\ UNCHANGED <<seen, at>>
       ELSE /\ seen' = seen \cup {<<"left", at, 0>>, <<"right", at, 0>>}
            /\ at' = at - 1
            /\ pc' = IF at = 1 THEN "read" ELSE "polys"
    /\ UNCHANGED <<st, polys, nL, nR>>

Next == Check \/ ReadPolys \/ Split \/ ReadClaims
Spec == Init /\ [][Next]_vars

Parts == { <<"poly", k, i>> : <<k, i>> \in { x \in (1..Len(polys)) \X (1..(MaxRounds(st) + 1)) : x[2] <= Len(polys[x[1]]) } }
         \cup { <<"left", k, 0>> : k \in 1..nL } \cup { <<"right", k, 0>> : k \in 1..nR }

NoCrash  == pc # "crash"
ReadAll  == pc = "read" => seen = Parts
InDegree == pc = "read" => \A k \in 1..NbLayers(st) : \A i \in 1..Len(polys[k]) : polys[k][i] <= PolyLen(st, k, i)
Complete == pc = "refused" => ~Expected

One == << <<Lay(<<W(0, 1, 0, Mul)>>, <<Mul>>)>> >>
Two == << <<Lay(<<W(0, 0, 0, Add)>>, <<Add>>), Lay(<<W(0, 0, 0, Mul)>>, <<Mul>>)>> >>
================================================================================
