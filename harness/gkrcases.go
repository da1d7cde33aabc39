package main

import (
	"fmt"

	"gkr-mimc/examples"
	"gkr-mimc/gkr"
	"gkr-mimc/sumcheck"

	"github.com/consensys/gurvy/bn256/fr"
)

func codeMimc() *Circ {
	c := mimcCirc()
	c.Code = examples.CreateMimcCircuit()
	return c
}

// randomRun is an honest run of a random circuit
func (r *R) randomRun(maxLayers, maxBG, maxBN int, custom bool) *gkrRun {
	c := r.circ(maxLayers, maxBG, 6, custom)
	bN := r.Intn(maxBN + 1)
	nChunks := r.batch(bN)
	nCore := r.cores(nChunks)
	in := r.vec(1<<uint(bN+c.BG[0]), r.style())
	return honest(c, bN, nChunks, nCore, in)
}

func (r *R) mimcRun(bN, nChunks, nCore int) *gkrRun {
	return honest(codeMimc(), bN, nChunks, nCore, r.mimcInputs(bN))
}

// anyRun is a random run, now and then of a wide, a deep, or a many-gates circuit or of a large batch
func (e *Env) anyRun(maxLayers, maxBG, maxBN int) *gkrRun {
	r := e.R
	var c *Circ
	bN := r.Intn(3)
	switch e.Idx % 24 {
	case 7:
		c = r.circ(2, 5, 50, true)
	case 13:
		c = r.circ(14, 1, 5, true)
		if e.Idx%48 == 37 {
			c, bN = r.tower(), r.Intn(2)
		}
	case 19:
		c, bN = r.circ(2, 1, 4, true), 5+r.Intn(5)
	default:
		return r.randomRun(maxLayers, maxBG, maxBN, true)
	}
	return honest(c, bN, r.batch(bN), r.cores(2), r.vec(1<<uint(bN+c.BG[0]), r.style()))
}

// circFromScen builds the circuit TLC enumerated
func circFromScen(s J) (*Circ, int, int, int) {
	var layers [][]W
	for _, l := range s["layers"].([]interface{}) {
		var ws []W
		for _, x := range l.([]interface{}) {
			m := x.(map[string]interface{})
			var g G
			switch m["g"].(string) {
			case "add":
				g = gAdd()
			case "mul":
				g = gMul()
			case "copy":
				g = gCopy()
			case "cipher":
				g = gCipher(arks[0])
			case "cipher0":
				g = gCipher(fr.Element{})
			}
			ws = append(ws, W{int(m["l"].(float64)), int(m["r"].(float64)), int(m["o"].(float64)), g})
		}
		layers = append(layers, ws)
	}
	num := func(k string) int { return int(s[k].(float64)) }
	return newCirc(layers), num("bn"), num("nchunks"), num("ncore")
}

func init() {
	// C01: honest proofs
	props["C01"] = &Prop{
		Count: func(e *Env) int {
			if e.Quick {
				return 300 + len(e.Scen)
			}
			return 1500 + len(e.Scen)
		},
		Run: func(e *Env) {
			r := e.R
			var g *gkrRun
			note := ""
			switch {
			case e.Idx < len(e.Scen):
				c, bN, nc, core := circFromScen(e.Scen[e.Idx])
				g = honest(c, bN, nc, core, r.vec(1<<uint(bN+c.BG[0]), r.style()))
				note = "TLC-enumerated circuit"
			case e.Idx < len(e.Scen)+6:
				k := e.Idx - len(e.Scen)
				bN := []int{0, 1, 2, 3, 4, 2}[k]
				g = r.mimcRun(bN, 1<<uint(r.Intn(bN+1)), 1+r.Intn(9))
				note = "MiMC circuit"
			case e.Idx%50 == 30: // as many rounds as large batches have
				c := r.circ(2, 1, 3, true)
				bN := r.pick(11, 12, 13)
				g = honest(c, bN, 1<<uint(r.Intn(bN+1)), 1+r.Intn(40), r.vec(1<<uint(bN+c.BG[0]), r.style()))
				note = "very large batch"
			case e.Idx%100 == 33:
				c := r.tower()
				bN := r.Intn(2)
				g = honest(c, bN, r.batch(bN), r.cores(2), r.vec(1<<uint(bN+c.BG[0]), r.style()))
				note = "very deep circuit"
			case e.Idx%50 == 41: // layers of up to 64 wires, some of them there hundreds of times
				c := r.circ(2, 6, 90, true)
				if r.Intn(2) == 0 {
					c = r.repeated(2, 3)
				}
				bN := r.Intn(4)
				g = honest(c, bN, r.batch(bN), r.cores(2), r.vec(1<<uint(bN+c.BG[0]), r.style()))
				note = "very wide circuit"
			case e.Idx%17 == 0: // larger batches, more chunks
				c := r.circ(2, 1, 4, true)
				bN := r.pick(6, 7, 8)
				nc := 1 << uint(r.Intn(bN+1))
				if e.Idx%2 == 0 { // several gates, several layers, many chunks
					for len(c.Layers) < 2 || len(c.Code.Layers[0].Gates) < 2 {
						c = r.circ(2, 1, 4, true)
					}
					nc = 1 << uint(bN-r.Intn(3))
				}
				g = honest(c, bN, nc, 1+r.Intn(16), r.vec(1<<uint(bN+c.BG[0]), r.style()))
				note = "large batch"
			case e.Idx%13 == 0: // wide or deep circuits
				if r.Intn(2) == 0 {
					c := r.circ(2, 4, 24, true)
					bN := r.Intn(3)
					g = honest(c, bN, r.batch(bN), r.cores(2), r.vec(1<<uint(bN+c.BG[0]), r.style()))
					note = "wide circuit"
				} else {
					c := r.circ(12, 1, 4, true)
					bN := r.Intn(3)
					g = honest(c, bN, r.batch(bN), r.cores(2), r.vec(1<<uint(bN+c.BG[0]), r.style()))
					note = "deep circuit"
				}
			default:
				g = r.randomRun(4, 3, 4, true)
				note = "random circuit"
			}
			for _, ok := range g.verdicts(g.Proof, g.Inputs, g.Outputs, true) {
				c := g.stmtJ("complete", g.Proof, g.Inputs, g.Outputs, ok)
				c["note"] = fmt.Sprintf("%s, %d layers, bN=%d, %d chunks, %d cores", note, len(g.C.Layers), g.BN, g.NChunks, g.NCore)
				e.Emit(c)
			}
		},
	}

	// C02: altered and forged proofs
	props["C02"] = &Prop{
		Count: tierCount(110+2*stripes, 900+8*stripes),
		Run: func(e *Env) {
			r := e.R
			base := 110
			if !e.Quick {
				base = 900
			}
			if k := e.Idx - base; k >= 0 {
				e.eachMiss(k%stripes, k/stripes%2 == 0)
				return
			}
			var g *gkrRun
			if e.Idx < 3 {
				bN := r.Intn(3)
				g = r.mimcRun(bN, r.batch(bN), 2)
			} else {
				g = e.anyRun(4, 2, 3)
			}
			emit := func(p gkr.Proof, in, out [][]fr.Element, note string) {
				for _, ok := range g.verdicts(p, in, out, false) {
					c := g.stmtJ("sound", p, in, out, ok)
					c["note"] = note
					e.Emit(c)
				}
			}
			if e.Idx%10 == 0 {
				emit(g.Proof, g.Inputs, g.Outputs, "honest proof")
			}
			n := 6
			if e.Idx < 3 {
				n = 4
			}
			for k := 0; k < n; k++ {
				p, note := r.mutateProof(g, k)
				emit(p, g.Inputs, g.Outputs, note)
			}
			for k := 0; k < 5; k++ {
				if p, note, ok := r.forge(g); ok {
					emit(p, g.Inputs, g.Outputs, note)
				}
			}
			if e.Idx >= 3 {
				r.oneFails(g, 6, emit)
			} else {
				r.oneFails(g, 2, emit)
			}
			p, in, out, note := r.splice(g)
			emit(p, in, out, note)
			p, in, out, note = r.flat(g)
			emit(p, in, out, note)
			// inputs that only one of the last two comparisons can tell from the proved ones
			hL, hR, hP := pointOf(g, g.Proof, 0)
			for side, pt := range [][]fr.Element{append(cp1(hL), hP...), append(cp1(hR), hP...)} {
				if t, ok := r.kernelShift(unchunk(g.Inputs), pt); ok {
					emit(g.Proof, chunked(t, g.NChunks), g.Outputs, fmt.Sprintf("inputs altered, extension kept at the point of side %d", side))
				}
			}
			r.otherInputs(g, func(in [][]fr.Element, note string) { emit(g.Proof, in, g.Outputs, note) })
		},
	}

	props["C03"] = &Prop{Count: tierCount(120, 1000), Run: runC03}
	props["C04"] = &Prop{Count: tierCount(120+2*stripes, 1000+8*stripes), Run: runC04}
}

// stripes is the number of cases the layers of a deep circuit are shared by
const stripes = 8

// eachRun is an honest run of a deep circuit, or of a small one
func (r *R) eachRun(deep bool) *gkrRun {
	c, bN := r.circ(4, 2, 4, true), 1+r.Intn(3)
	if deep {
		c, bN = r.solidTower(), 1
	}
	return honest(c, bN, r.batch(bN), r.cores(2), r.vec(1<<uint(bN+c.BG[0]), vsRandom))
}

// eachMiss makes each comparison of a small circuit in turn the only one that fails, or the last one and a
// round of each layer of a deep circuit (of one layer in eight)
func (e *Env) eachMiss(stripe int, deep bool) {
	r := e.R
	g := r.eachRun(deep)
	for l := range g.C.Layers {
		rounds := 2*g.C.BG[l] + g.BN
		for at := 0; at <= rounds; at++ {
			if deep && (l%stripes != stripe || at != rounds && at != l/stripes%rounds) {
				continue
			}
			for _, to := range [...]int{0, 1, 1 + (stripe+at)%turns} {
				m := miss{target: l, at: at, gap: r.gap(), to: to}
				if m.gap.IsZero() {
					m.gap = fint(1)
				}
				p, in, out, note, ok := r.failing(g, m)
				if !ok {
					continue
				}
				c := g.stmtJ("sound", p, in, out, g.verify(p, in, out))
				c["note"] = note
				e.Emit(c)
				if deep && r.Intn(4) > 0 {
					break
				}
			}
		}
	}
}

// eachShape alters the length of each polynomial of a small circuit in turn, or of one polynomial of
// each layer of a deep circuit (of one layer in eight)
func (e *Env) eachShape(stripe int, deep bool) {
	r := e.R
	g := r.eachRun(deep)
	emit := func(p gkr.Proof, note string) {
		ok := false
		what := try(func() { ok = g.verify(p, g.Inputs, g.Outputs) })
		c := g.stmtJ("layout", p, g.Inputs, g.Outputs, ok)
		if what != "" {
			c["kind"], c["what"] = "crash", what
		}
		c["note"] = note
		e.Emit(c)
	}
	for l := range g.C.Layers {
		rounds := len(g.Proof.SumcheckProofs[l].PolyCoeffs)
		for i := 0; i < rounds; i++ {
			if deep && (l%stripes != stripe || i != l/stripes%rounds) {
				continue
			}
			p := cpProof(g.Proof)
			polys := p.SumcheckProofs[l].PolyCoeffs
			honest := polys[i]
			for k := 0; k < 3; k++ {
				note := fmt.Sprintf("polynomial %d of layer %d ", i, l)
				switch k {
				case 0:
					polys[i] = append(cp1(honest), fr.Element{})
					note += "padded with a zero"
				case 1:
					polys[i] = append(cp1(honest), fr.Element{}, fr.Element{}, fr.Element{})
					note += "padded with three zeros"
				case 2:
					if len(honest) < 2 {
						continue
					}
					polys[i] = cp1(honest[:len(honest)-1])
					note += "truncated"
				}
				emit(p, note)
				if deep {
					break
				}
			}
		}
		if deep && l%stripes == stripe {
			p := cpProof(g.Proof)
			polys := p.SumcheckProofs[l].PolyCoeffs
			if len(polys) > 0 {
				p.SumcheckProofs[l].PolyCoeffs = append(polys, make([]fr.Element, len(polys[0])))
				emit(p, fmt.Sprintf("layer %d has a polynomial more", l))
			}
		}
	}
}

// mutateProof alters one value of an honest proof
func (r *R) mutateProof(g *gkrRun, k int) (gkr.Proof, string) {
	p := cpProof(g.Proof)
	delta := r.val()
	if delta.IsZero() {
		delta = fint(1)
	}
	nl := len(p.SumcheckProofs)
	switch k % 6 {
	case 0, 1: // a coefficient anywhere
		l := r.Intn(nl)
		polys := p.SumcheckProofs[l].PolyCoeffs
		if len(polys) > 0 {
			i := r.Intn(len(polys))
			if r.Intn(3) == 0 {
				i = len(polys) - 1
			}
			j := r.Intn(len(polys[i]))
			polys[i][j].Add(&polys[i][j], &delta)
			return p, fmt.Sprintf("coefficient %d of polynomial %d of layer %d altered", j, i, l)
		}
		fallthrough
	case 2: // a left claim
		l := r.Intn(nl)
		p.ClaimsLeft[l].Add(&p.ClaimsLeft[l], &delta)
		return p, fmt.Sprintf("left claim of layer %d altered", l)
	case 3:
		l := r.Intn(nl)
		p.ClaimsRight[l].Add(&p.ClaimsRight[l], &delta)
		return p, fmt.Sprintf("right claim of layer %d altered", l)
	case 4: // a change that keeps p(0)+p(1), so that only a later check can notice
		l := r.Intn(nl)
		polys := p.SumcheckProofs[l].PolyCoeffs
		if len(polys) == 0 {
			p.ClaimsRight[l].Add(&p.ClaimsRight[l], &delta)
			return p, "right claim altered"
		}
		i := r.Intn(len(polys))
		if len(polys[i]) < 3 {
			polys[i][0].Add(&polys[i][0], &delta)
			return p, "constant coefficient altered"
		}
		a := 1 + r.Intn(len(polys[i])-1)
		b := 1 + r.Intn(len(polys[i])-1)
		for b == a {
			b = 1 + r.Intn(len(polys[i])-1)
		}
		polys[i][a].Add(&polys[i][a], &delta)
		polys[i][b].Sub(&polys[i][b], &delta)
		return p, fmt.Sprintf("coefficients %d and %d of polynomial %d of layer %d altered, sum kept", a, b, i, l)
	default: // whole values exchanged
		l := r.Intn(nl)
		m := r.Intn(nl)
		switch r.Intn(4) {
		case 0:
			p.ClaimsLeft[l], p.ClaimsRight[l] = p.ClaimsRight[l], p.ClaimsLeft[l]
			return p, fmt.Sprintf("claims of layer %d exchanged", l)
		case 1:
			p.ClaimsLeft[l], p.ClaimsLeft[m] = p.ClaimsLeft[m], p.ClaimsLeft[l]
			return p, fmt.Sprintf("left claims of layers %d and %d exchanged", l, m)
		case 2:
			for i := range p.ClaimsLeft {
				p.ClaimsLeft[i], p.ClaimsRight[i] = fr.Element{}, fr.Element{}
			}
			return p, "all claims zero"
		default:
			for i := range p.SumcheckProofs {
				for j := range p.SumcheckProofs[i].PolyCoeffs {
					for t := range p.SumcheckProofs[i].PolyCoeffs[j] {
						p.SumcheckProofs[i].PolyCoeffs[j][t] = fr.Element{}
					}
				}
			}
			return p, "all polynomials zero"
		}
	}
}

// splice builds proofs from two honest ones
func (r *R) splice(g *gkrRun) (gkr.Proof, [][]fr.Element, [][]fr.Element, string) {
	in2 := r.vec(1<<uint(g.BN+g.C.BG[0]), vsRandom)
	h := honest(g.C, g.BN, g.NChunks, 1, in2)
	switch r.Intn(4) {
	case 0:
		return h.Proof, g.Inputs, g.Outputs, "proof of another batch"
	case 1:
		return h.Proof, g.Inputs, h.Outputs, "proof and outputs of another batch"
	case 2:
		return h.Proof, h.Inputs, g.Outputs, "proof and inputs of another batch"
	}
	p := cpProof(g.Proof)
	n := len(p.ClaimsLeft)
	cut := r.Intn(n)
	for i := 0; i <= cut; i++ {
		if i == n-1 && r.Intn(2) == 0 {
			break
		}
		p.SumcheckProofs[i] = h.Proof.SumcheckProofs[i]
		p.ClaimsLeft[i], p.ClaimsRight[i] = h.Proof.ClaimsLeft[i], h.Proof.ClaimsRight[i]
	}
	if r.Intn(2) == 0 {
		return p, h.Inputs, g.Outputs, fmt.Sprintf("layers 0..%d from the proof of another batch, with its inputs", cut)
	}
	return p, g.Inputs, g.Outputs, fmt.Sprintf("layers 0..%d from the proof of another batch", cut)
}

// withBlankChunks runs the circuit again on inputs of which one or two chunks are zero
func (r *R) withBlankChunks(g *gkrRun) (*gkrRun, []int) {
	n := 2 << uint(r.Intn(g.BN)%3)
	in := chunked(unchunk(g.Inputs), n)
	for c := range in {
		for i := range in[c] {
			in[c][i] = r.elt()
		}
	}
	var blank []int
	for k := 0; k < 1+r.Intn(2); k++ {
		b := r.Intn(n)
		in[b] = make([]fr.Element, len(in[b]))
		blank = append(blank, b)
	}
	return honest(g.C, g.BN, n, r.cores(n), unchunk(in)), blank
}

// runC03: statements that differ from the proved one
func runC03(e *Env) {
	r := e.R
	var g *gkrRun
	if e.Idx < 4 {
		bN := 1 + r.Intn(3)
		g = r.mimcRun(bN, r.batch(bN), 2)
	} else {
		g = e.anyRun(3, 2, 4)
	}
	var blank []int
	if e.Idx%4 == 1 && g.BN > 0 {
		g, blank = r.withBlankChunks(g)
	}
	emit := func(in, out [][]fr.Element, note string) {
		if eq2(in, g.Inputs) && eq2(out, g.Outputs) {
			return
		}
		var oks []bool
		what := try(func() { oks = g.verdicts(g.Proof, in, out, false) })
		if what != "" {
			oks = []bool{false}
		}
		for _, ok := range oks {
			c := g.stmtJ("binding", g.Proof, in, out, ok)
			if what != "" {
				c["kind"], c["what"] = "crash", what
			}
			// the finding is about the point (1, 2, 3, ..): any other acceptance is a violation
			delete(c, "q")
			delete(c, "qp")
			c["note"] = note
			c["finding"] = "final-point"
			if !eq2(out, g.Outputs) {
				c["finding"] = "initial-point"
			}
			e.Emit(c)
		}
	}
	delta := r.elt()
	alter := func(x [][]fr.Element, n int) [][]fr.Element {
		y := cp2(x)
		for k := 0; k < n; k++ {
			c := r.Intn(len(y))
			i := r.Intn(len(y[c]))
			if r.Intn(2) == 0 {
				i = len(y[c]) - 1 - r.Intn((len(y[c])+1)/2)
			}
			y[c][i].Add(&y[c][i], &delta)
		}
		return y
	}
	emit(g.Inputs, alter(g.Outputs, 1), "one output altered")
	emit(g.Inputs, alter(g.Outputs, 3), "several outputs altered")
	emit(alter(g.Inputs, 1), g.Outputs, "one input altered")
	emit(alter(g.Inputs, 3), g.Outputs, "several inputs altered")
	// every instance shifted, instances exchanged
	all := cp2(g.Outputs)
	for c := range all {
		for i := range all[c] {
			all[c][i].Add(&all[c][i], &delta)
		}
	}
	emit(g.Inputs, all, "all outputs altered")
	if g.NChunks > 1 {
		sw := cp2(g.Outputs)
		a, b := r.Intn(g.NChunks), r.Intn(g.NChunks)
		sw[a], sw[b] = sw[b], sw[a]
		emit(g.Inputs, sw, "two chunks of the outputs exchanged")
		sw = cp2(g.Inputs)
		sw[a], sw[b] = sw[b], sw[a]
		emit(sw, g.Outputs, "two chunks of the inputs exchanged")
		for _, b := range blank {
			for a := range g.Inputs {
				sw = cp2(g.Inputs)
				sw[a], sw[b] = sw[b], sw[a]
				emit(sw, g.Outputs, "a chunk of zeros exchanged with another one, in the inputs")
				sw = cp2(g.Outputs)
				sw[a], sw[b] = sw[b], sw[a]
				emit(g.Inputs, sw, "a chunk of zeros exchanged with another one, in the outputs")
			}
		}
	}
	h := honest(g.C, g.BN, g.NChunks, 1, r.vec(1<<uint(g.BN+g.C.BG[0]), vsRandom))
	emit(h.Inputs, h.Outputs, "statement of another batch")
	emit(h.Inputs, g.Outputs, "inputs of another batch")
	emit(g.Inputs, h.Outputs, "outputs of another batch")
	// alterations the multilinear extensions at the points of the proof cannot tell
	qP, q := gkr.GetInitialQPrimeAndQ(g.BN, g.C.BG[len(g.C.Layers)])
	if t, ok := r.kernelShift(unchunk(g.Outputs), append(cp1(q), qP...)); ok {
		emit(g.Inputs, chunked(t, g.NChunks), "outputs altered, extension kept at the initial point")
	}
	hL, hR, hP := pointOf(g, g.Proof, 0)
	if t, ok := r.kernelShift(unchunk(g.Inputs), append(cp1(hL), hP...)); ok {
		emit(chunked(t, g.NChunks), g.Outputs, "inputs altered, extension kept at the left point")
	}
	if t, ok := r.kernelShift(unchunk(g.Inputs), append(cp1(hR), hP...)); ok {
		emit(chunked(t, g.NChunks), g.Outputs, "inputs altered, extension kept at the right point")
	}
	r.otherInputs(g, func(in [][]fr.Element, note string) { emit(in, g.Outputs, note) })
	// batches with more or fewer values than were proved
	for k := 0; k < 3; k++ {
		in, note := r.resize(g.Inputs)
		emit(in, g.Outputs, "inputs "+note)
		out, note := r.resize(g.Outputs)
		emit(g.Inputs, out, "outputs "+note)
	}
}

// resize returns a batch of another size that contains as much of x as possible
func (r *R) resize(x [][]fr.Element) ([][]fr.Element, string) {
	y := cp2(x)
	each := func(f func(c []fr.Element) []fr.Element) {
		for k := range y {
			y[k] = f(y[k])
		}
	}
	some := func(c []fr.Element) fr.Element {
		if r.Intn(2) == 0 {
			return c[r.Intn(len(c))]
		}
		return r.val()
	}
	switch r.Intn(11) {
	case 0: // the values that folding reaches first
		each(func(c []fr.Element) (d []fr.Element) {
			for _, v := range c {
				d = append(d, v, some(c))
			}
			return
		})
		return y, "with a value after each"
	case 1:
		each(func(c []fr.Element) (d []fr.Element) {
			for _, v := range c {
				d = append(d, v, v)
			}
			return
		})
		return y, "with each value twice"
	case 2:
		each(func(c []fr.Element) []fr.Element { return append(c, some(c)) })
		return y, "with one more value per chunk"
	case 3:
		each(func(c []fr.Element) []fr.Element { return append(c, c...) })
		return y, "with each chunk twice as long"
	case 4:
		k := r.Intn(len(y))
		y[k] = append(y[k], some(y[k]))
		return y, "with one longer chunk"
	case 5:
		y = append(y, cp2(x)...)
		return y, "with every chunk twice"
	case 6:
		y = append(y, cp1(x[0]))
		return y, "with one more chunk"
	case 7:
		each(func(c []fr.Element) []fr.Element { return c[:len(c)-1] })
		return y, "with one value less per chunk"
	case 8:
		each(func(c []fr.Element) []fr.Element { return c[:(len(c)+1)/2] })
		if len(x[0]) == 1 {
			y = nil
		}
		return y, "cut in half"
	case 9:
		k := r.Intn(len(y))
		y[k] = y[k][:len(y[k])-1]
		return y, "with one shorter chunk"
	}
	if r.Intn(2) == 0 {
		return nil, "missing"
	}
	return y[:len(y)-1], "without the last chunk"
}

// runC04: layouts
func runC04(e *Env) {
	r := e.R
	base := 120
	if !e.Quick {
		base = 1000
	}
	if k := e.Idx - base; k >= 0 {
		e.eachShape(k%stripes, k/stripes%2 == 0)
		return
	}
	var g *gkrRun
	if e.Idx < 2 {
		g = r.mimcRun(1, 1, 1)
	} else {
		g = e.anyRun(4, 2, 3)
	}
	emit := func(p gkr.Proof, note string) {
		var oks []bool
		what := try(func() { oks = g.verdicts(p, g.Inputs, g.Outputs, false) })
		if what != "" {
			oks = []bool{false}
		}
		for _, ok := range oks {
			c := g.stmtJ("layout", p, g.Inputs, g.Outputs, ok)
			if what != "" {
				c["kind"], c["what"] = "crash", what
			}
			c["note"] = note
			e.Emit(c)
		}
	}
	nb := 22
	if e.Idx < 2 {
		nb = 6
	}
	for k := 0; k < nb; k++ {
		p, note := r.mangle(g, k)
		emit(p, note)
	}
}

// mangle alters the layout of an honest proof
func (r *R) mangle(g *gkrRun, k int) (gkr.Proof, string) {
	p := cpProof(g.Proof)
	nl := len(p.SumcheckProofs)
	l := r.Intn(nl)
	polys := p.SumcheckProofs[l].PolyCoeffs
	anyPoly := func() (int, bool) {
		if len(polys) == 0 {
			return 0, false
		}
		return r.Intn(len(polys)), true
	}
	switch k % 22 {
	case 0: // padding a polynomial with a leading zero keeps its values
		if i, ok := anyPoly(); ok {
			polys[i] = append(polys[i], fr.Element{})
			return p, fmt.Sprintf("polynomial %d of layer %d padded with a zero", i, l)
		}
	case 1: // a higher-degree polynomial with the same values at 0 and 1
		if i, ok := anyPoly(); ok {
			n := 1 + r.Intn(6)
			d := r.elt()
			var nd fr.Element
			nd.Neg(&d)
			for len(polys[i]) < 2 {
				polys[i] = append(polys[i], fr.Element{})
			}
			polys[i][1].Add(&polys[i][1], &d)
			for j := 0; j < n; j++ {
				polys[i] = append(polys[i], fr.Element{})
			}
			polys[i][len(polys[i])-1] = nd
			return p, fmt.Sprintf("polynomial %d of layer %d replaced by one of higher degree", i, l)
		}
	case 2:
		if i, ok := anyPoly(); ok {
			polys[i] = nil
			return p, fmt.Sprintf("polynomial %d of layer %d nil", i, l)
		}
	case 3:
		if i, ok := anyPoly(); ok {
			polys[i] = polys[i][:len(polys[i])-1]
			return p, fmt.Sprintf("polynomial %d of layer %d truncated", i, l)
		}
	case 4:
		if i, ok := anyPoly(); ok {
			polys[i] = polys[i][:1]
			return p, fmt.Sprintf("polynomial %d of layer %d constant", i, l)
		}
	case 5:
		if len(polys) > 0 {
			p.SumcheckProofs[l].PolyCoeffs = polys[:len(polys)-1]
			return p, fmt.Sprintf("last polynomial of layer %d missing", l)
		}
	case 6:
		if len(polys) > 0 {
			p.SumcheckProofs[l].PolyCoeffs = polys[1:]
			return p, fmt.Sprintf("first polynomial of layer %d missing", l)
		}
	case 7:
		if i, ok := anyPoly(); ok {
			p.SumcheckProofs[l].PolyCoeffs = append(polys, cp1(polys[i]))
			return p, fmt.Sprintf("layer %d has a polynomial more", l)
		}
	case 8: // one more round which the sum check accepts
		if len(polys) > 0 {
			last := polys[len(polys)-1]
			v := evalPoly(last, challengeOf(last))
			half := fint(2)
			half.Inverse(&half)
			v.Mul(&v, &half)
			extra := make([]fr.Element, len(last))
			extra[0] = v
			p.SumcheckProofs[l].PolyCoeffs = append(polys, extra)
			return p, fmt.Sprintf("layer %d has one more polynomial that sums right", l)
		}
	case 9:
		p.SumcheckProofs[l].PolyCoeffs = nil
		return p, fmt.Sprintf("layer %d has no polynomials", l)
	case 10:
		p.SumcheckProofs[l].PolyCoeffs = [][]fr.Element{}
		return p, fmt.Sprintf("layer %d has an empty list of polynomials", l)
	case 11:
		p.SumcheckProofs = p.SumcheckProofs[:nl-1]
		return p, "a sumcheck proof missing"
	case 12:
		p.SumcheckProofs = append(p.SumcheckProofs, p.SumcheckProofs[l])
		return p, "a sumcheck proof more"
	case 13:
		p.ClaimsLeft = p.ClaimsLeft[:nl-1]
		return p, "a left claim missing"
	case 14:
		p.ClaimsRight = p.ClaimsRight[:nl-1]
		return p, "a right claim missing"
	case 15:
		p.ClaimsLeft = append(p.ClaimsLeft, r.val())
		return p, "a left claim more"
	case 16:
		p.ClaimsRight = append(p.ClaimsRight, r.val())
		return p, "a right claim more"
	case 17:
		p.ClaimsLeft, p.ClaimsRight = nil, nil
		return p, "no claims"
	case 18:
		return gkr.Proof{}, "empty proof"
	case 19: // the proof of a batch of another size
		bN := g.BN + 1
		if g.BN > 0 && r.Intn(2) == 0 {
			bN = g.BN - 1
		}
		h := honest(g.C, bN, 1, 1, r.vec(1<<uint(bN+g.C.BG[0]), vsZero))
		return h.Proof, "proof of a batch of another size"
	case 20: // everything one longer
		p.SumcheckProofs = append([]sumcheck.Proof{p.SumcheckProofs[0]}, p.SumcheckProofs...)
		p.ClaimsLeft = append(p.ClaimsLeft[:1:1], p.ClaimsLeft...)
		p.ClaimsRight = append(p.ClaimsRight[:1:1], p.ClaimsRight...)
		return p, "a layer more"
	}
	if i, ok := anyPoly(); ok && r.Intn(2) == 0 {
		j := r.Intn(len(polys))
		polys[i], polys[j] = polys[j], polys[i]
		return p, fmt.Sprintf("polynomials %d and %d of layer %d exchanged", i, j, l)
	}
	m := r.Intn(nl)
	p.SumcheckProofs[l], p.SumcheckProofs[m] = p.SumcheckProofs[m], p.SumcheckProofs[l]
	return p, fmt.Sprintf("sumcheck proofs of layers %d and %d exchanged", l, m)
}
