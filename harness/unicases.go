package main

import (
	"fmt"

	"gkr-mimc/polynomial"

	"github.com/consensys/gurvy/bn256/fr"
)

const largestDomain = 12

func init() {
	props["C13"] = &Prop{Count: tierCount(13*20+200, 13*300+3000), Run: runC13}
}

func runC13(e *Env) {
	r := e.R
	nInterp := 13 * 20
	if !e.Quick {
		nInterp = 13 * 300
	}
	switch {
	case e.Idx < nInterp:
		n := e.Idx % 13
		var vals []fr.Element
		switch (e.Idx / 13) % 4 {
		case 0: // a unit vector
			vals = make([]fr.Element, n)
			if n > 0 {
				vals[r.Intn(n)] = fint(1)
			}
		case 1: // the values of a polynomial of low degree
			cs := r.vec(r.Intn(n+1), vsRandom)
			vals = make([]fr.Element, n)
			for i := range vals {
				vals[i] = evalPoly(cs, fint(int64(i)))
			}
		default:
			vals = r.vec(n, r.style())
		}
		arg := r.vec(n, vsRandom)
		polynomial.InterpolateOnRange(arg) // other values were there before
		copy(arg, vals)
		cs := polynomial.InterpolateOnRange(arg)
		got := cp1(cs)
		for i := range cs { // the caller owns the result
			cs[i] = r.elt()
		}
		again := polynomial.InterpolateOnRange(arg)
		e.Emit(J{"kind": "interp", "vals": Fs1(vals), "coeffs": Fs1(got), "again": Fs1(cp1(again)), "valsAfter": Fs1(arg),
			"note": fmt.Sprintf("%d values", n)})
	case e.Idx < nInterp+13:
		n := e.Idx - nInterp
		rows := polynomial.GetLagrangePolynomial(n)
		first := cp2(rows)
		polynomial.InterpolateOnRange(r.vec(n, vsRandom))
		e.Emit(J{"kind": "lagrange", "n": n, "rows": fs2(first), "after": fs2(cp2(polynomial.GetLagrangePolynomial(n))),
			"note": fmt.Sprintf("precomputed basis of size %d", n)})
	case e.Idx < nInterp+26:
		n := e.Idx - nInterp - 13
		rows := polynomial.LagrangeCoefficient(n)
		e.Emit(J{"kind": "lagrange", "n": n, "rows": fs2(rows), "after": fs2(rows), "note": fmt.Sprintf("computed basis of size %d", n)})
	default:
		n := 1 + r.Intn(16)
		if r.Intn(5) == 0 {
			n = 17 + r.Intn(30)
		}
		if e.Idx%30 == 7 {
			n = 50 + r.Intn(250)
		}
		cs := r.vec(n, r.style())
		arg := cp1(cs)
		xs := []fr.Element{fint(0), fint(1), fint(-1), fint(2), fint(int64(3 + r.Intn(20))), r.elt(), r.val()}
		if n > 1 {
			xs = append(xs, cs[r.Intn(n)])
		}
		ys := make([]fr.Element, len(xs))
		for i := range xs {
			if r.Intn(3) == 0 { // other coefficients were there before
				copy(arg, r.like(cs))
				polynomial.EvaluatePolynomial(arg, xs[i])
				copy(arg, cs)
			}
			ys[i] = polynomial.EvaluatePolynomial(arg, xs[i])
		}
		e.Emit(J{"kind": "evalpoly", "coeffs": Fs1(cs), "xs": Fs1(xs), "ys": Fs1(ys), "coeffsAfter": Fs1(arg),
			"note": fmt.Sprintf("%d coefficients", n)})
	}
}
