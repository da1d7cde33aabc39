package main

import (
	"fmt"
	"strings"

	"gkr-mimc/circuit"

	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gurvy/bn256/fr"
)

// Term is c * vL^i * vR^j
type Term struct {
	C    F `json:"c"`
	I, J int
}

// PolyGate is a gate supplied by a user of the library: a sum of monomials
type PolyGate struct {
	Terms []Term
	id    string
}

func newPolyGate(terms []Term) *PolyGate {
	var sb strings.Builder
	for _, t := range terms {
		e := fr.Element(t.C)
		fmt.Fprintf(&sb, "%v*%d*%d;", e.String(), t.I, t.J)
	}
	return &PolyGate{Terms: terms, id: "PolyGate-" + sb.String()}
}

// ID of the gate
func (g *PolyGate) ID() string { return g.id }

func powF(x fr.Element, n int) fr.Element {
	res := fint(1)
	for i := 0; i < n; i++ {
		res.Mul(&res, &x)
	}
	return res
}

// Eval computes the gate
func (g *PolyGate) Eval(res, vL, vR *fr.Element) {
	var acc fr.Element
	for _, t := range g.Terms {
		m := fr.Element(t.C)
		a, b := powF(*vL, t.I), powF(*vR, t.J)
		m.Mul(&m, &a)
		m.Mul(&m, &b)
		acc.Add(&acc, &m)
	}
	*res = acc
}

// EvalManyVL computes the gate for many left operands
func (g *PolyGate) EvalManyVL(res, vLs []fr.Element, vR *fr.Element) {
	for i := range vLs {
		g.Eval(&res[i], &vLs[i], vR)
	}
}

// EvalManyVR computes the gate for many right operands
func (g *PolyGate) EvalManyVR(res []fr.Element, vL *fr.Element, vRs []fr.Element) {
	for i := range vRs {
		g.Eval(&res[i], vL, &vRs[i])
	}
}

// GnarkEval is not needed by the native protocol
func (g *PolyGate) GnarkEval(cs *frontend.ConstraintSystem, vL, vR frontend.Variable) frontend.Variable {
	return vL
}

// Degrees of the gate
func (g *PolyGate) Degrees() (l, r, p int) {
	for _, t := range g.Terms {
		if t.I > l {
			l = t.I
		}
		if t.J > r {
			r = t.J
		}
		if t.I+t.J > p {
			p = t.I + t.J
		}
	}
	return
}

// G pairs a gate of the code with its description for the specification
type G struct {
	Code circuit.Gate
	Desc J
}

func gAdd() G  { return G{circuit.AddGate{}, J{"k": "add"}} }
func gMul() G  { return G{circuit.MulGate{}, J{"k": "mul"}} }
func gCopy() G { return G{circuit.CopyGate{}, J{"k": "copy"}} }
func gCipher(ark fr.Element) G {
	return G{circuit.NewCipherGate(ark), J{"k": "cipher", "ark": F(ark)}}
}
func gPoly(terms []Term) G {
	ts := make([]J, len(terms))
	for i, t := range terms {
		ts[i] = J{"c": t.C, "i": t.I, "j": t.J}
	}
	return G{newPolyGate(terms), J{"k": "poly", "terms": ts}}
}

func (r *R) polyGate(maxDeg int) G {
	n := 1 + r.Intn(3)
	terms := make([]Term, n)
	for i := range terms {
		d := r.Intn(maxDeg + 1)
		a := r.Intn(d + 1)
		terms[i] = Term{F(r.val()), a, d - a}
		if c := fr.Element(terms[i].C); c.IsZero() {
			terms[i].C = F(fint(2))
		}
	}
	return gPoly(terms)
}

func (r *R) gate(custom bool) G {
	switch r.Intn(7) {
	case 0, 1:
		return gAdd()
	case 2:
		return gMul()
	case 3:
		return gCopy()
	case 4, 5:
		return gCipher(r.val())
	}
	if custom {
		return r.polyGate(r.pick(1, 2, 3, 4, 10))
	}
	return gMul()
}

func sameDesc(a, b J) bool { return string(mustJSON(a)) == string(mustJSON(b)) }
