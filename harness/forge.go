package main

import (
	"fmt"

	"gkr-mimc/circuit"
	"gkr-mimc/common"
	"gkr-mimc/gkr"
	"gkr-mimc/polynomial"
	"gkr-mimc/sumcheck"

	"github.com/consensys/gurvy/bn256/fr"
)

func challengeOf(msg []fr.Element) fr.Element { return common.GetChallenge(msg) }

func evalPoly(cs []fr.Element, x fr.Element) fr.Element {
	var res fr.Element
	for i := len(cs) - 1; i >= 0; i-- {
		res.Mul(&res, &x)
		res.Add(&res, &cs[i])
	}
	return res
}

func sum01(cs []fr.Element) fr.Element {
	res := evalPoly(cs, fint(1))
	res.Add(&res, &cs[0])
	return res
}

func evalMLE(t []fr.Element, pt []fr.Element) fr.Element {
	t = cp1(t)
	for _, x := range pt {
		m := len(t) / 2
		for i := 0; i < m; i++ {
			var d fr.Element
			d.Sub(&t[i+m], &t[i])
			d.Mul(&d, &x)
			t[i].Add(&t[i], &d)
		}
		t = t[:m]
	}
	return t[0]
}

// cheater is a prover that departs from the protocol at a chosen place and otherwise satisfies every
// check that can still be satisfied
type cheater struct {
	r     *R
	g     *gkrRun
	plain circuit.Assignment // the assignment in one chunk
	pr    gkr.Prover
	p     gkr.Proof
	// point the next layer is proved at
	qP, qL, qR []fr.Element
	lam        fr.Element
}

func newCheater(r *R, g *gkrRun) *cheater {
	c := &cheater{r: r, g: g}
	for _, v := range g.Assignment.Values {
		c.plain.Values = append(c.plain.Values, [][]fr.Element{unchunk(v)})
	}
	c.pr = gkr.NewProver(g.C.Code, c.plain)
	n := len(g.C.Layers)
	c.p = gkr.Proof{SumcheckProofs: make([]sumcheck.Proof, n), ClaimsLeft: make([]fr.Element, n), ClaimsRight: make([]fr.Element, n)}
	return c
}

func (c *cheater) tables(l int) (vL, vR, eq polynomial.BookKeepingTable, st []polynomial.BookKeepingTable) {
	var a, b, e []polynomial.BookKeepingTable
	if l == len(c.g.C.Layers)-1 {
		qP, q := gkr.GetInitialQPrimeAndQ(c.g.BN, c.g.C.BG[l+1])
		a, b, e, st = c.pr.GetBookKeepingTablesForInitialRound(qP, q, 1)
	} else {
		a, b, e, st = c.pr.GetBookKeepingTablesForIntermediateRound(l, c.qP, c.qL, c.qR, fint(1), c.lam, 1)
	}
	return a[0], b[0], e[0], st
}

const (
	keepHonest  = iota
	wrongRound  // a wrong polynomial with the right sum, then honest for the new challenge: the next sum fails
	wrongClose  // the same, and every later sum of the layer patched: only the layer's last check fails
	wrongClaims // honest rounds, wrong claims that satisfy the layer's last check
)

// layer proves layer l, departing as asked; reports whether the departure was possible
func (c *cheater) layer(l, how, at int) bool {
	vL, vR, eq, st := c.tables(l)
	bG, bN := c.g.C.BG[l], c.g.BN
	gates := c.g.C.Code.Layers[l].Gates
	sp := sumcheck.NewSingleThreadedProver(vL, vR, eq, gates, st)
	n := 2*bG + bN
	polys := make([][]fr.Element, n)
	chals := make([]fr.Element, n)
	var running fr.Element
	done := how == keepHonest
	for i := 0; i < n; i++ {
		var ev []fr.Element
		switch {
		case i < bG:
			ev = sp.GetEvalsOnHL()
		case i < 2*bG:
			ev = sp.GetEvalsOnHR()
		default:
			ev = sp.GetEvalsOnHPrime()
		}
		polys[i] = polynomial.InterpolateOnRange(ev)
		if (how == wrongRound || how == wrongClose) && !done && i >= at && len(polys[i]) >= 2 {
			if len(polys[i]) >= 3 {
				d := c.r.elt()
				polys[i][1].Add(&polys[i][1], &d)
				polys[i][2].Sub(&polys[i][2], &d)
			} else {
				d := c.r.elt()
				polys[i][0].Add(&polys[i][0], &d)
				d.Double(&d)
				polys[i][1].Sub(&polys[i][1], &d)
			}
			done = true
		} else if how == wrongClose && done {
			have := sum01(polys[i])
			want := running
			want.Sub(&want, &have)
			half := fint(2)
			half.Inverse(&half)
			want.Mul(&want, &half)
			polys[i][0].Add(&polys[i][0], &want)
		}
		chals[i] = challengeOf(polys[i])
		running = evalPoly(polys[i], chals[i])
		switch {
		case i < bG:
			sp.FoldHL(chals[i])
		case i < 2*bG:
			sp.FoldHR(chals[i])
		default:
			sp.FoldHPrime(chals[i])
		}
	}
	hL, hR, hP := cp1(chals[:bG]), cp1(chals[bG:2*bG]), cp1(chals[2*bG:])
	v := c.plain.Values[l][0]
	cl := evalMLE(v, append(cp1(hL), hP...))
	cr := evalMLE(v, append(cp1(hR), hP...))
	if how == wrongClaims {
		// the layer's last check is affine in the left claim (or in the right one)
		statics := make([]fr.Element, len(st))
		for i := range st {
			statics[i] = evalStatic(c, l, i, hL, hR)
		}
		one := fint(1)
		comb := func(a, b fr.Element) fr.Element { return circuit.EvaluateCombinator(&a, &b, &one, gates, statics) }
		target := comb(cl, cr)
		solve := func(f func(x fr.Element) fr.Element) (fr.Element, bool) {
			y0, y1 := f(fint(0)), f(fint(1))
			var a, t fr.Element
			a.Sub(&y1, &y0)
			t.Sub(&target, &y0)
			if a.IsZero() {
				return c.r.elt(), t.IsZero()
			}
			a.Inverse(&a)
			t.Mul(&t, &a)
			return t, true
		}
		var ok bool
		switch at % 3 {
		case 0: // another right claim, the left one solved for
			nr := c.r.elt()
			var nl fr.Element
			nl, ok = solve(func(x fr.Element) fr.Element { return comb(x, nr) })
			cl, cr = nl, nr
		case 1: // another left claim, the right one solved for
			nl := c.r.elt()
			var nr fr.Element
			nr, ok = solve(func(x fr.Element) fr.Element { return comb(nl, x) })
			cl, cr = nl, nr
		default: // only the right claim, if the layer does not look at it
			nr := c.r.elt()
			if v := comb(cl, nr); v == target {
				cr, ok = nr, true
			} else if v := comb(nr, cr); v == target {
				cl, ok = nr, true
			}
		}
		if got := comb(cl, cr); !ok || got != target {
			return false
		}
		done = true
	}
	c.p.SumcheckProofs[l] = sumcheck.Proof{PolyCoeffs: polys}
	c.p.ClaimsLeft[l], c.p.ClaimsRight[l] = cl, cr
	c.qP, c.qL, c.qR = hP, hL, hR
	c.lam = challengeOf([]fr.Element{cl, cr})
	return done
}

func evalStatic(c *cheater, l, i int, hL, hR []fr.Element) fr.Element {
	_, _, _, st := c.tables(l)
	return evalMLE(st[i].Table, append(cp1(hL), hR...))
}

// forge returns a proof which departs once, and what is left to notice it
func (r *R) forge(g *gkrRun) (gkr.Proof, string, bool) {
	c := newCheater(r, g)
	n := len(g.C.Layers)
	target := r.Intn(n)
	if r.Intn(3) == 0 {
		target = 0
	}
	how := wrongRound + r.Intn(3)
	at := 0
	if how == wrongClaims {
		at = r.Intn(3)
	} else if rounds := 2*g.C.BG[target] + g.BN; rounds > 0 {
		at = r.Intn(rounds)
	}
	note := ""
	for l := n - 1; l >= 0; l-- {
		if l != target {
			c.layer(l, keepHonest, 0)
			continue
		}
		if !c.layer(l, how, at) {
			return c.p, "", false
		}
		switch how {
		case wrongRound:
			note = fmt.Sprintf("layer %d: wrong polynomial in round >= %d, all else as honest", l, at)
		case wrongClose:
			note = fmt.Sprintf("layer %d: wrong polynomial in round >= %d, later sums patched", l, at)
		case wrongClaims:
			note = fmt.Sprintf("layer %d: wrong claims satisfying the layer's last check (%d)", l, at)
		}
	}
	return c.p, note, true
}

// kernelShift alters t without changing its multilinear extension at pt: two entries that differ in one bit
// are shifted in proportion
func (r *R) kernelShift(t, pt []fr.Element) ([]fr.Element, bool) {
	res := cp1(t)
	n := len(pt)
	if n == 0 {
		return res, false
	}
	k := r.Intn(n)
	a := r.Intn(len(t))
	bit := 1 << uint(n-1-k)
	b := a ^ bit
	if a&bit != 0 {
		a, b = b, a
	}
	// weights in the ratio (1-pt[k]) : pt[k]
	x := r.elt()
	var one, y, z fr.Element
	one.SetOne()
	y.Mul(&x, &pt[k]) // added to entry a
	one.Sub(&one, &pt[k])
	z.Mul(&x, &one) // subtracted from entry b
	res[a].Add(&res[a], &y)
	res[b].Sub(&res[b], &z)
	return res, !eq1(res, t)
}

// pointOf returns the challenges of layer l of a proof, split
func pointOf(g *gkrRun, p gkr.Proof, l int) (hL, hR, hP []fr.Element) {
	bG := g.C.BG[l]
	for j, cs := range p.SumcheckProofs[l].PolyCoeffs {
		x := challengeOf(cs)
		switch {
		case j < bG:
			hL = append(hL, x)
		case j < 2*bG:
			hR = append(hR, x)
		default:
			hP = append(hP, x)
		}
	}
	return
}

// flat returns a proof that tells nothing: its messages are all zeros, or constant polynomials each with the
// sum it has to have, and claims that satisfy the last check of the layer where they can
func (r *R) flat(g *gkrRun) (gkr.Proof, [][]fr.Element, [][]fr.Element, string) {
	p := cpProof(g.Proof)
	in, out := cp2(g.Inputs), cp2(g.Outputs)
	fill := func(x [][]fr.Element, v fr.Element) {
		for i := range x {
			for j := range x[i] {
				x[i][j] = v
			}
		}
	}
	n := len(p.SumcheckProofs)
	if r.Intn(2) == 0 { // zeros, for some or all of the layers
		cut := n
		if r.Intn(3) == 0 {
			cut = 1 + r.Intn(n)
		}
		for l := 0; l < cut; l++ {
			for _, cs := range p.SumcheckProofs[l].PolyCoeffs {
				for t := range cs {
					cs[t] = fr.Element{}
				}
			}
			p.ClaimsLeft[l], p.ClaimsRight[l] = fr.Element{}, fr.Element{}
		}
		if cut == n || r.Intn(2) == 0 {
			fill(out, fr.Element{})
		}
		if r.Intn(3) > 0 {
			fill(in, fr.Element{})
		}
		return p, in, out, fmt.Sprintf("nothing but zeros in layers 0..%d", cut-1)
	}
	v := r.val()
	fill(out, v)
	c := newCheater(r, g)
	claim := v
	half := fint(2)
	half.Inverse(&half)
	for l := n - 1; l >= 0; l-- {
		var x fr.Element
		hL, hR, hP := []fr.Element{}, []fr.Element{}, []fr.Element{}
		_, _, eq, st := c.tables(l)
		for j, cs := range p.SumcheckProofs[l].PolyCoeffs {
			claim.Mul(&claim, &half)
			for t := range cs {
				cs[t] = fr.Element{}
			}
			cs[0] = claim
			x = challengeOf(cs)
			switch bG := g.C.BG[l]; {
			case j < bG:
				hL = append(hL, x)
			case j < 2*bG:
				hR = append(hR, x)
			default:
				hP = append(hP, x)
			}
		}
		e := evalMLE(eq.Table, hP)
		statics := make([]fr.Element, len(st))
		for i := range st {
			statics[i] = evalMLE(st[i].Table, append(cp1(hL), hR...))
		}
		gates := g.C.Code.Layers[l].Gates
		cl, cr := r.val(), r.val()
		// affine in the left claim, or in the right one, where the gates are
		for side := 0; side < 2; side++ {
			f := func(y fr.Element) fr.Element {
				if side == 0 {
					return circuit.EvaluateCombinator(&y, &cr, &e, gates, statics)
				}
				return circuit.EvaluateCombinator(&cl, &y, &e, gates, statics)
			}
			y0, y1 := f(fint(0)), f(fint(1))
			var a, t fr.Element
			a.Sub(&y1, &y0)
			t.Sub(&claim, &y0)
			a.Inverse(&a)
			t.Mul(&t, &a)
			if f(t) == claim {
				if side == 0 {
					cl = t
				} else {
					cr = t
				}
				break
			}
		}
		p.ClaimsLeft[l], p.ClaimsRight[l] = cl, cr
		c.qP, c.qL, c.qR = hP, hL, hR
		c.lam = challengeOf([]fr.Element{cl, cr})
		claim.Mul(&c.lam, &cr)
		claim.Add(&claim, &cl)
	}
	if r.Intn(2) == 0 {
		fill(in, p.ClaimsLeft[0])
	}
	return p, in, out, "constant polynomials"
}
