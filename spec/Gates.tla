---------------------------------- MODULE Gates ---------------------------------
(***************************************************************************)
(* The gates (circuit/gates.go) as functions of a left and a right operand. *)
(* A gate is a record: kind "add", "mul", "copy", "cipher" (with its        *)
(* constant ark), or "poly": an arbitrary gate given as a sequence of       *)
(* monomials [c, i, j] standing for c * vL^i * vR^j, which represents the   *)
(* gates a user of the library supplies.                                    *)
(***************************************************************************)
EXTENDS Poly

GateEval(g, vL, vR) ==
    CASE g.k = "add"    -> FAdd(vL, vR)
      [] g.k = "mul"    -> FMul(vL, vR)
      [] g.k = "copy"   -> vL
      [] g.k = "cipher" -> FAdd(vL, FPow(FAdd(vR, g.ark), 7))
      [] g.k = "poly"   -> Sum([t \in 1..Len(g.terms) |->
                               FMul(g.terms[t].c, FMul(FPow(vL, g.terms[t].i), FPow(vR, g.terms[t].j)))])

\* the degrees in the left operand, the right one, and in both together
GateDegrees(g) ==
    CASE g.k = "add"    -> <<1, 1, 1>>
      [] g.k = "mul"    -> <<1, 1, 2>>
      [] g.k = "copy"   -> <<1, 0, 1>>
      [] g.k = "cipher" -> <<1, 7, 7>>
      [] g.k = "poly"   -> LET I == { g.terms[t].i : t \in DOMAIN g.terms }
                               J == { g.terms[t].j : t \in DOMAIN g.terms }
                               K == { g.terms[t].i + g.terms[t].j : t \in DOMAIN g.terms }
                           IN  <<MaxOf(I \cup {0}), MaxOf(J \cup {0}), MaxOf(K \cup {0})>>

\* two gates compute the same function
SameGate(g, h) ==
    /\ g.k = h.k
    /\ g.k = "cipher" => g.ark = h.ark
    /\ g.k = "poly" => g.terms = h.terms
================================================================================
