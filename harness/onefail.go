package main

import (
	"fmt"

	"gkr-mimc/circuit"
	"gkr-mimc/gkr"
	"gkr-mimc/polynomial"
	"gkr-mimc/sumcheck"

	"github.com/consensys/gurvy/bn256/fr"
)

// gap is the difference the only failing comparison of a proof is left with
func (r *R) gap() fr.Element {
	switch r.Intn(4) {
	case 0:
		return r.elt()
	case 1:
		return fint(int64(1 + r.Intn(3)))
	case 2:
		return fint(-int64(1 + r.Intn(3)))
	}
	return r.limb()
}

// miss is a comparison that is to fail, and the difference of its sides, or what the wrong side becomes
type miss struct {
	target, at int
	gap        fr.Element
	to         int // 0: the right value plus the gap
}

// turns is the number of values other than the right one plus some difference that a side may become
const turns = 7

// astray returns what the wrong side of a comparison becomes, given the right value: one that a verifier might take
// for the right one (none at all, the opposite, another multiple) or the right one plus a difference
func astray(x fr.Element, to int, gap fr.Element) fr.Element {
	var y fr.Element
	half := fint(2)
	half.Inverse(&half)
	switch to {
	case 1: // 0
	case 2:
		y.Neg(&x)
	case 3:
		y.Double(&x)
	case 4:
		y.Mul(&x, &half)
	case 5:
		y.SetOne()
	case 6:
		y.Square(&x)
	case 7:
		y = fint(-1)
	default:
		y.Add(&x, &gap)
	}
	if y == x {
		y.Add(&x, &gap)
	}
	return y
}

// turn is mostly 0
func (r *R) turn() int {
	if r.Intn(3) > 0 {
		return 0
	}
	if r.Intn(2) == 0 {
		return 1
	}
	return 1 + r.Intn(turns)
}

// failing returns a proof and inputs of which all comparisons of the verifier hold except chosen ones (mostly
// one), whose two sides differ by chosen values; none is chosen if the gap is zero. The dishonest prover follows the
// protocol down to the first of them, then keeps patching its messages, and at last chooses the inputs.
//
// where: layer n is the sum over the outputs, layer -1 the inputs' left or right comparison; for the other layers
// at is a round, or the number of rounds for the layer's last comparison.
func (r *R) failing(g *gkrRun, misses ...miss) (p gkr.Proof, in [][]fr.Element, out [][]fr.Element, note string, ok bool) {
	c := newCheater(r, g)
	n := len(g.C.Layers)
	out = cp2(g.Outputs)
	// add shifts a value that is compared if that comparison is to fail
	add := func(x *fr.Element, target, at int, what string, args ...interface{}) (hit bool) {
		for k := range misses {
			if misses[k].target == target && misses[k].at == at {
				*x = astray(*x, misses[k].to, misses[k].gap)
				hit = true
			}
		}
		if hit {
			if note != "" {
				note += " and "
			}
			note += fmt.Sprintf(what, args...)
		}
		return
	}
	var shift fr.Element
	if add(&shift, n, 0, "sum over the outputs") { // every output shifted, so that the extension shifts by the same
		for i := range out {
			for j := range out[i] {
				out[i][j].Add(&out[i][j], &shift)
			}
		}
	}
	qP0, q0 := gkr.GetInitialQPrimeAndQ(g.BN, g.C.BG[n])
	running := evalMLE(unchunk(g.Outputs), append(cp1(q0), qP0...))
	off := false // whether the honest messages no longer fit
	for l := n - 1; l >= 0; l-- {
		bG := g.C.BG[l]
		rounds := 2*bG + g.BN
		vL, vR, eq, st := c.tables(l)
		eqT := cp1(eq.Table)
		stT := make([][]fr.Element, len(st))
		for i := range st {
			stT[i] = cp1(st[i].Table)
		}
		gates := g.C.Code.Layers[l].Gates
		sp := sumcheck.NewSingleThreadedProver(vL, vR, eq, gates, st)
		polys := make([][]fr.Element, rounds)
		chals := make([]fr.Element, rounds)
		for i := 0; i < rounds; i++ {
			var ev []fr.Element
			switch {
			case i < bG:
				ev = sp.GetEvalsOnHL()
			case i < 2*bG:
				ev = sp.GetEvalsOnHR()
			default:
				ev = sp.GetEvalsOnHPrime()
			}
			polys[i] = polynomial.InterpolateOnRange(ev)
			want := running
			if add(&want, l, i, "round %d of %d of layer %d", i+1, rounds, l) {
				off = true
			}
			if off {
				fixPoly(polys[i], want, r)
				if want.IsZero() && r.Intn(2) == 0 { // nothing at all
					polys[i] = make([]fr.Element, len(polys[i]))
				}
			}
			chals[i] = challengeOf(polys[i])
			running = evalPoly(polys[i], chals[i])
			switch {
			case i < bG:
				sp.FoldHL(chals[i])
			case i < 2*bG:
				sp.FoldHR(chals[i])
			default:
				sp.FoldHPrime(chals[i])
			}
		}
		hL, hR, hP := cp1(chals[:bG]), cp1(chals[bG:2*bG]), cp1(chals[2*bG:])
		v := c.plain.Values[l][0]
		cl := evalMLE(v, append(cp1(hL), hP...))
		cr := evalMLE(v, append(cp1(hR), hP...))
		want := running
		if add(&want, l, rounds, "last comparison of layer %d", l) {
			off = true
		}
		if off {
			statics := make([]fr.Element, len(st))
			for i := range st {
				statics[i] = evalMLE(stT[i], append(cp1(hL), hR...))
			}
			e := evalMLE(eqT, hP)
			comb := func(a, b fr.Element) fr.Element { return circuit.EvaluateCombinator(&a, &b, &e, gates, statics) }
			if l == 0 && bG == 0 { // both claims are about the same value
				cl, ok = affineRoot(func(x fr.Element) fr.Element { return comb(x, x) }, want)
				cr = cl
			} else {
				if r.Intn(2) == 0 {
					cr = r.elt()
				}
				l0, r0 := cl, cr
				if cl, ok = affineRoot(func(x fr.Element) fr.Element { return comb(x, r0) }, want); !ok {
					cl = l0
					cr, ok = affineRoot(func(x fr.Element) fr.Element { return comb(l0, x) }, want)
				}
			}
			if !ok {
				return
			}
		}
		c.p.SumcheckProofs[l] = sumcheck.Proof{PolyCoeffs: polys}
		c.p.ClaimsLeft[l], c.p.ClaimsRight[l] = cl, cr
		c.qP, c.qL, c.qR = hP, hL, hR
		c.lam = challengeOf([]fr.Element{cl, cr})
		running.Mul(&c.lam, &cr)
		running.Add(&running, &cl)
	}
	in = cp2(g.Inputs)
	cl, cr := c.p.ClaimsLeft[0], c.p.ClaimsRight[0]
	if add(&cl, -1, 0, "left comparison with the inputs") {
		off = true
		if g.C.BG[0] == 0 { // both are about the same value
			cr = cl
		}
	}
	if g.C.BG[0] > 0 && add(&cr, -1, 1, "right comparison with the inputs") {
		off = true
	}
	if off {
		var t []fr.Element
		if t, ok = r.moveTo(unchunk(g.Inputs), append(cp1(c.qL), c.qP...), append(cp1(c.qR), c.qP...), cl, cr); !ok {
			return
		}
		in = chunked(t, g.NChunks)
	}
	return c.p, in, out, "all comparisons hold but: " + note, true
}

// affineRoot solves f(x) = y for an affine f
func affineRoot(f func(fr.Element) fr.Element, y fr.Element) (x fr.Element, ok bool) {
	y0, y1 := f(fint(0)), f(fint(1))
	y1.Sub(&y1, &y0)
	if y1.IsZero() {
		return x, false
	}
	y1.Inverse(&y1)
	x.Sub(&y, &y0)
	x.Mul(&x, &y1)
	return x, f(x) == y
}

// moveTo alters t so that its extension is a at p and b at q
func (r *R) moveTo(t, p, q []fr.Element, a, b fr.Element) ([]fr.Element, bool) {
	u, v := make([]fr.Element, len(t)), make([]fr.Element, len(t))
	for i := range t {
		u[i], v[i] = r.elt(), r.elt()
	}
	var da, db, det, x, y, z fr.Element
	da, db = evalMLE(t, p), evalMLE(t, q)
	da.Sub(&a, &da)
	db.Sub(&b, &db)
	up, uq, vp, vq := evalMLE(u, p), evalMLE(u, q), evalMLE(v, p), evalMLE(v, q)
	det.Mul(&up, &vq)
	z.Mul(&uq, &vp)
	det.Sub(&det, &z)
	if det.IsZero() { // the points agree
		if up.IsZero() {
			return nil, false
		}
		x = up
		x.Inverse(&x)
		x.Mul(&x, &da)
	} else {
		det.Inverse(&det)
		x.Mul(&da, &vq)
		z.Mul(&db, &vp)
		x.Sub(&x, &z)
		x.Mul(&x, &det)
		y.Mul(&up, &db)
		z.Mul(&uq, &da)
		y.Sub(&y, &z)
		y.Mul(&y, &det)
	}
	res := cp1(t)
	for i := range res {
		z.Mul(&x, &u[i])
		res[i].Add(&res[i], &z)
		z.Mul(&y, &v[i])
		res[i].Add(&res[i], &z)
	}
	return res, evalMLE(res, p) == a && evalMLE(res, q) == b
}

// miss chooses a comparison at random
func (r *R) miss(g *gkrRun) miss {
	n := len(g.C.Layers)
	m := miss{target: r.Intn(n), gap: r.gap(), to: r.turn()}
	switch r.Intn(6) {
	case 0:
		m.target = n
		return m
	case 1:
		m.target = -1
		m.at = r.Intn(2)
		if g.C.BG[0] == 0 {
			m.at = 0
		}
		return m
	case 2:
		m.target = n - 1
	case 3:
		m.target = 0
	}
	rounds := 2*g.C.BG[m.target] + g.BN
	m.at = r.Intn(rounds + 1)
	switch r.Intn(4) {
	case 0:
		m.at = 0
	case 1:
		m.at = rounds
	}
	return m
}

// otherInputs returns inputs for which both of the last comparisons of an honest proof fail, in ways that
// checks that are too coarse cannot see: the claims are met in the other order, or their sum, their difference
// or their random combination is
func (r *R) otherInputs(g *gkrRun, emit func(in [][]fr.Element, note string)) {
	hL, hR, hP := pointOf(g, g.Proof, 0)
	p, q := append(cp1(hL), hP...), append(cp1(hR), hP...)
	t := unchunk(g.Inputs)
	cl, cr := g.Proof.ClaimsLeft[0], g.Proof.ClaimsRight[0]
	d := r.gap()
	to := func(l, rr fr.Element, note string) {
		if t2, ok := r.moveTo(t, p, q, l, rr); ok && !eq1(t, t2) {
			emit(chunked(t2, g.NChunks), note)
		}
	}
	var a, b, k fr.Element
	a.Add(&cl, &d)
	b.Add(&cr, &d)
	to(a, b, "inputs altered, difference of the claims kept")
	b.Sub(&cr, &d)
	to(a, b, "inputs altered, sum of the claims kept")
	to(cr, cl, "inputs altered, claims met in the other order")
	k = challengeOf([]fr.Element{cl, cr})
	a.Mul(&d, &k)
	a.Sub(&cl, &a)
	b.Add(&cr, &d)
	to(a, b, "inputs altered, random combination of the claims kept")
	if !cl.IsZero() && !cr.IsZero() {
		a.Double(&cl)
		b.Inverse(&a)
		b.Mul(&b, &cl)
		b.Mul(&b, &cr)
		to(a, b, "inputs altered, product of the claims kept")
	}
}

// oneFails returns k proofs that fail one comparison, at random places, and one that fails none although it
// is not the honest prover's
func (r *R) oneFails(g *gkrRun, k int, emit func(p gkr.Proof, in, out [][]fr.Element, note string)) {
	n := len(g.C.Layers)
	for i := 0; i < k; i++ {
		m := r.miss(g)
		if i == 0 && 0 <= m.target && m.target < n {
			m.gap, m.to = fint(0), 0
		}
		misses := []miss{m}
		if i > 2 && i%3 == 0 { // two of them, the differences of which cancel
			o := r.miss(g)
			if r.Intn(3) > 0 { // close to each other
				o.target, o.at = m.target, m.at+1
			}
			if o.target != m.target || o.at != m.at {
				m.to, o.to = 0, 0
				misses[0] = m
				o.gap = m.gap
				if r.Intn(3) > 0 {
					o.gap.Neg(&m.gap)
				}
				misses = append(misses, o)
			}
		}
		if p, in, out, note, ok := r.failing(g, misses...); ok {
			if m.gap.IsZero() && m.to == 0 && len(misses) == 1 {
				note = "dishonest prover, but all comparisons hold"
			}
			emit(p, in, out, note)
		}
	}
}
