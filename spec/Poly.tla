---------------------------------- MODULE Poly ----------------------------------
(***************************************************************************)
(* Multilinear polynomials by their tables of values on the hypercube       *)
(* (polynomial/book_keeping.go, eq.go, chunked.go) and univariate           *)
(* polynomials by their coefficients (polynomial/lagrange.go).              *)
(* The first variable of a table is the most significant bit of the index.  *)
(***************************************************************************)
EXTENDS Field, Interleaving

(* ---- multilinear ---- *)

\* the delta of the first variable
Delta(T) ==
    LET m == Len(T) \div 2
    IN  TLCEval([i \in 1..m |-> FSub(T[i + m], T[i])])

RECURSIVE FoldAll(_, _)
FoldAll(T, pt) == IF pt = <<>> THEN T ELSE FoldAll(Fold(T, Head(pt)), Tail(pt))

\* value at pt of the multilinear extension, by successive substitutions
Eval(T, pt) == FoldAll(T, pt)[1]

\* the univariate equality polynomial, and the multivariate one
Eq1(x, y) == FAdd(FMul(x, y), FMul(FSub(FOne, x), FSub(FOne, y)))
EqEval(xs, ys) == Prod([i \in 1..Len(xs) |-> Eq1(xs[i], ys[i])])

\* eq(pt, x) for the vertex number x (0-based) of the hypercube
EqVertex(pt, x) ==
    LET n == Len(pt)
    IN  Prod([i \in 1..n |-> IF BitOf(x, i, n) = 1 THEN pt[i] ELSE FSub(FOne, pt[i])])

\* the table of eq(pt, .), entry by entry
EqTable(pt) == TLCEval([x \in 1..Pow2(Len(pt)) |-> EqVertex(pt, x - 1)])

\* the multilinear extension as it is defined: \sum_x T[x] eq(x, pt)
MLE(T, pt) == Sum([x \in 1..Len(T) |-> FMul(T[x], EqVertex(pt, x - 1))])

\* entry-wise operations
TabAdd(A, B)   == TLCEval([i \in 1..Len(A) |-> FAdd(A[i], B[i])])
TabSub(A, B)   == TLCEval([i \in 1..Len(A) |-> FSub(A[i], B[i])])
TabScale(a, A) == TLCEval([i \in 1..Len(A) |-> FMul(a, A[i])])

(* ---- univariate ---- *)

RECURSIVE Horner(_, _, _, _)
Horner(cs, x, k, acc) ==
    IF k = 0 THEN acc ELSE Horner(cs, x, k - 1, FAdd(FMul(acc, x), cs[k]))
\* value at x of \sum_i cs[i] x^(i-1)
UniEval(cs, x) == Horner(cs, x, Len(cs), FZero)

\* the same, monomial by monomial
UniEvalDef(cs, x) == Sum([i \in 1..Len(cs) |-> FMul(cs[i], FPow(x, i - 1))])

AtZeroAndOne(cs) == FAdd(UniEval(cs, FZero), UniEval(cs, FOne))

\* cs interpolates vs on 0, 1, 2, ...
Interpolates(cs, vs) ==
    /\ Len(cs) <= Len(vs)
    /\ \A i \in 1..Len(vs) : UniEval(cs, FNat(i - 1)) = vs[i]

\* removes leading zero coefficients
RECURSIVE Trim(_)
Trim(cs) == IF cs = <<>> THEN cs
            ELSE IF cs[Len(cs)] = FZero THEN Trim(SubSeq(cs, 1, Len(cs) - 1))
            ELSE cs
SamePoly(a, b) == Trim(a) = Trim(b)
================================================================================
