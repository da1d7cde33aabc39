-------------------------------- MODULE TraceUni --------------------------------
(***************************************************************************)
(* Conformance of the univariate polynomials (polynomial/lagrange.go).      *)
(*                                                                          *)
(* kind "interp": values, the coefficients they were interpolated to, the    *)
(*   same once more, and the values as they were left.                      *)
(* kind "evalpoly": coefficients, points and values.                         *)
(* kind "lagrange": the basis for a domain size.                             *)
(***************************************************************************)
EXTENDS Poly, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, outcome

K == Cases[c]
Say(v, info) == outcome' = v /\ PrintT(<<v, c, info>>)
Decide(ok, info) == Say(IF ok THEN "ACCEPT" ELSE "REJECT", info)

TInit == outcome = "none" /\ c \in DOMAIN Cases

Interpolated ==
    /\ K.kind = "interp" /\ outcome = "none"
    /\ Decide(/\ Interpolates(K.coeffs, K.vals)
              /\ SamePoly(K.again, K.coeffs)
              /\ K.valsAfter = K.vals, <<"interpolation of", Len(K.vals)>>)
    /\ UNCHANGED c

Evaluated ==
    /\ K.kind = "evalpoly" /\ outcome = "none"
    /\ LET bad == { i \in DOMAIN K.xs : K.ys[i] # UniEvalDef(K.coeffs, K.xs[i]) }
       IN  Decide(bad = {} /\ K.coeffsAfter = K.coeffs, <<"evaluation", Len(K.coeffs), bad>>)
    /\ UNCHANGED c

\* row l is 1 at l and 0 at the other points of the domain
IsBasis(B, n) ==
    /\ Len(B) = n
    /\ \A l \in 1..n : Interpolates(B[l], [i \in 1..n |-> IF i = l THEN FOne ELSE FZero])
Basis ==
    /\ K.kind = "lagrange" /\ outcome = "none"
    /\ Decide(IsBasis(K.rows, K.n) /\ K.after = K.rows, <<"basis", K.n>>)
    /\ UNCHANGED c

TNext == Interpolated \/ Evaluated \/ Basis
TSpec == TInit /\ [][TNext]_<<c, outcome>>
================================================================================
