package main

import (
	"gkr-mimc/circuit"
	"gkr-mimc/gkr"
	"gkr-mimc/sumcheck"

	"github.com/consensys/gurvy/bn256/fr"
)

// W is a wire, for both sides
type W struct {
	L, R, O int
	G       G
}

// Circ is a circuit, for both sides
type Circ struct {
	Layers [][]W
	Code   circuit.Circuit
	Desc   []J
	BG     []int // log-widths, inputs first: len(Layers)+1
}

// layerDesc describes a layer to the specification. Nothing in it comes from the code
// except the degrees the gates declare.
func layerDesc(ws []W) J {
	wires := make([]J, len(ws))
	gates := []J{}
	degs := [][]int{}
	for i, w := range ws {
		wires[i] = J{"l": w.L, "r": w.R, "o": w.O, "g": w.G.Desc}
		seen := false
		for _, g := range gates {
			seen = seen || sameDesc(g, w.G.Desc)
		}
		if !seen {
			gates = append(gates, w.G.Desc)
			a, b, c := w.G.Code.Degrees()
			degs = append(degs, []int{a, b, c})
		}
	}
	return J{"wires": wires, "gates": gates, "degs": degs}
}

func codeWires(ws []W) []circuit.Wire {
	res := make([]circuit.Wire, len(ws))
	for i, w := range ws {
		res[i] = circuit.Wire{L: w.L, R: w.R, O: w.O, Gate: w.G.Code}
	}
	return res
}

func bgOf(ws []W) (in, out int) {
	mi, mo := 0, 0
	for _, w := range ws {
		if w.L > mi {
			mi = w.L
		}
		if w.R > mi {
			mi = w.R
		}
		if w.O > mo {
			mo = w.O
		}
	}
	return log2(mi + 1), log2(mo + 1)
}

func newCirc(layers [][]W) *Circ {
	c := &Circ{Layers: layers}
	wiring := make([][]circuit.Wire, len(layers))
	for i, ws := range layers {
		wiring[i] = codeWires(ws)
		c.Desc = append(c.Desc, layerDesc(ws))
		in, out := bgOf(ws)
		if i == 0 {
			c.BG = append(c.BG, in)
		}
		c.BG = append(c.BG, out)
	}
	c.Code = circuit.NewCircuit(wiring)
	return c
}

// layer returns random wires between widths 2^bi and 2^bo
func (r *R) layer(bi, bo int, maxWires int, custom bool) []W {
	n := 1 + r.Intn(maxWires)
	palette := make([]G, 1+r.Intn(3))
	if r.Intn(8) == 0 { // many gates
		palette = make([]G, 4+r.Intn(8))
		n += r.Intn(12)
	}
	for i := range palette {
		palette[i] = r.gate(custom)
	}
	ws := []W{}
	for i := 0; i < n; i++ {
		w := W{r.Intn(1 << uint(bi)), r.Intn(1 << uint(bi)), r.Intn(1 << uint(bo)), palette[r.Intn(len(palette))]}
		ws = append(ws, w)
		if r.Intn(6) == 0 { // duplicate wire
			ws = append(ws, w)
		}
	}
	// operands on both halves of the layer below, for the same output
	if bi > 0 && r.Intn(4) == 0 {
		w := ws[r.Intn(len(ws))]
		if r.Intn(2) == 0 {
			w.L ^= 1 << uint(bi-1)
		} else {
			w.R ^= 1 << uint(bi-1)
		}
		ws = append(ws, w)
	}
	// the widths have to come out as asked for
	if gi, go_ := bgOf(ws); gi != bi || go_ != bo {
		k := r.Intn(len(ws))
		if gi != bi {
			hi := 1<<uint(bi) - 1 - r.Intn(1<<uint(bi)/2+boolInt(bi == 0))
			if r.Intn(2) == 0 {
				ws[k].L = hi
			} else {
				ws[k].R = hi
			}
		}
		if go_ != bo {
			hi := 1<<uint(bo) - 1 - r.Intn(1<<uint(bo)/2+boolInt(bo == 0))
			ws[r.Intn(len(ws))].O = hi
		}
	}
	return ws
}

func boolInt(b bool) int {
	if b {
		return 1
	}
	return 0
}

// circ returns a random circuit whose adjacent layers agree on their widths
func (r *R) circ(maxLayers, maxBG, maxWires int, custom bool) *Circ {
	n := 1 + r.Intn(maxLayers)
	bgs := make([]int, n+1)
	for i := range bgs {
		bgs[i] = r.Intn(maxBG + 1)
	}
	layers := make([][]W, n)
	for i := range layers {
		layers[i] = r.layer(bgs[i], bgs[i+1], maxWires, custom)
	}
	return newCirc(layers)
}

// tower returns a circuit of many narrow layers
func (r *R) tower() *Circ {
	n := r.pick(100+r.Intn(60), 127, 128, 129, 200, 255, 256, 257)
	bgs := make([]int, n+1)
	for i := range bgs {
		if r.Intn(4) == 0 {
			bgs[i] = 1
		}
	}
	layers := make([][]W, n)
	for i := range layers {
		layers[i] = r.layer(bgs[i], bgs[i+1], 3, true)
	}
	return newCirc(layers)
}

// solidTower returns a tower whose layers depend on all of their operands, so that a false claim can be made up for
func (r *R) solidTower() *Circ {
	n := r.pick(100+r.Intn(60), 127, 128, 129, 200, 255, 256, 257)
	layers := make([][]W, n)
	wide := false
	for i := range layers {
		next := r.Intn(4) == 0
		k := 0
		if wide {
			k = 1
		}
		gate := func() G {
			if r.Intn(2) == 0 {
				return gCopy()
			}
			return gAdd()
		}
		layers[i] = []W{{k, 0, 0, gate()}}
		if wide {
			layers[i] = append(layers[i], W{0, 1, 0, gAdd()})
		}
		if next {
			layers[i] = append(layers[i], W{0, k, 1, gate()})
		}
		wide = next
	}
	return newCirc(layers)
}

// repeated returns a random circuit one wire of which is there hundreds of times
func (r *R) repeated(maxLayers, maxBG int) *Circ {
	n := 1 + r.Intn(maxLayers)
	bgs := make([]int, n+1)
	for i := range bgs {
		bgs[i] = r.Intn(maxBG + 1)
	}
	layers := make([][]W, n)
	for i := range layers {
		layers[i] = r.layer(bgs[i], bgs[i+1], 8, true)
	}
	k := r.Intn(n)
	layers[k] = r.repeat(layers[k])
	return newCirc(layers)
}

// repeat adds a wire of the list to it hundreds of times
func (r *R) repeat(ws []W) []W {
	w := ws[r.Intn(len(ws))]
	for m := r.pick(255, 256, 257, 300+r.Intn(300)); m > 0; m-- {
		ws = append(ws, w)
	}
	r.Shuffle(len(ws), func(i, j int) { ws[i], ws[j] = ws[j], ws[i] })
	return ws
}

// cores returns a number of cores for n chunks: fewer, as many, more, many more
func (r *R) cores(n int) int {
	switch r.Intn(20) {
	case 0, 1, 2:
		return 1 + r.pick(r.Intn(8*n+16), r.Intn(20*n+200))
	case 3:
		return r.manyCores()
	}
	return 1 + r.Intn(2*n+2)
}

// manyCores are far more than there is work for
func (r *R) manyCores() int {
	return r.pick(64, 128, 255, 256, 257, 1024, 4096, 4097, 1<<uint(10+r.Intn(12)), 1<<16, 1<<16+1, r.Intn(1<<20)+1)
}

// gkrRun is an honest run
type gkrRun struct {
	C               *Circ
	BN, NChunks     int
	NCore           int
	Inputs, Outputs [][]fr.Element
	Assignment      circuit.Assignment
	Proof           gkr.Proof
	used            *gkr.Verifier // a verifier that has already verified something
	heldProof       gkr.Proof     // arrays that are used for one proof and statement after the other
	heldIn, heldOut [][]fr.Element
}

// pour puts a value in the arrays of another one, if these have the right sizes
func pour(dst, src [][]fr.Element) bool {
	if len(dst) != len(src) {
		return false
	}
	for i := range dst {
		if len(dst[i]) != len(src[i]) {
			return false
		}
	}
	for i := range dst {
		copy(dst[i], src[i])
	}
	return true
}

func pourProof(dst, src gkr.Proof) bool {
	flat := func(p gkr.Proof) [][]fr.Element {
		res := [][]fr.Element{p.ClaimsLeft, p.ClaimsRight}
		for _, s := range p.SumcheckProofs {
			res = append(res, s.PolyCoeffs...)
		}
		return res
	}
	if len(dst.SumcheckProofs) != len(src.SumcheckProofs) {
		return false
	}
	for i := range dst.SumcheckProofs {
		if len(dst.SumcheckProofs[i].PolyCoeffs) != len(src.SumcheckProofs[i].PolyCoeffs) {
			return false
		}
	}
	return pour(flat(dst), flat(src))
}

// inPlace has the arrays that held the honest proof and its statement hold another one, and returns what the
// verifier that accepted the one says about the other
func (g *gkrRun) inPlace(proof gkr.Proof, in, out [][]fr.Element) (ok, done bool) {
	if g.heldIn == nil {
		g.heldProof, g.heldIn, g.heldOut = cpProof(g.Proof), cp2(g.Inputs), cp2(g.Outputs)
	}
	if !(pourProof(g.heldProof, proof) && pour(g.heldIn, in) && pour(g.heldOut, out)) {
		return false, false
	}
	v := gkr.NewVerifier(g.BN, g.C.Code)
	pourProof(g.heldProof, g.Proof)
	pour(g.heldIn, g.Inputs)
	pour(g.heldOut, g.Outputs)
	v.Verify(g.heldProof, g.heldIn, g.heldOut)
	pourProof(g.heldProof, proof)
	pour(g.heldIn, in)
	pour(g.heldOut, out)
	return v.Verify(g.heldProof, g.heldIn, g.heldOut), true
}

func (r *R) batch(bN int) (nChunks int) {
	k := r.Intn(bN + 1)
	return 1 << uint(k)
}

func honest(c *Circ, bN, nChunks, nCore int, inputs []fr.Element) *gkrRun {
	g := &gkrRun{C: c, BN: bN, NChunks: nChunks, NCore: nCore}
	g.Inputs = chunked(inputs, nChunks)
	g.Assignment = c.Code.Assign(g.Inputs, nCore)
	g.Outputs = g.Assignment.Values[len(c.Layers)]
	p := gkr.NewProver(c.Code, g.Assignment)
	g.Proof = p.Prove(nCore)
	return g
}

func (g *gkrRun) verify(proof gkr.Proof, in, out [][]fr.Element) bool {
	v := gkr.NewVerifier(g.BN, g.C.Code)
	return v.Verify(proof, in, out)
}

// verdicts returns the verdict of a new verifier and that of one that has already verified the honest
// proof (or, for honest proofs, that proof with other outputs): one verdict if they agree
func (g *gkrRun) verdicts(proof gkr.Proof, in, out [][]fr.Element, wrongFirst bool) []bool {
	fresh := g.verify(proof, in, out)
	if g.used == nil {
		v := gkr.NewVerifier(g.BN, g.C.Code)
		g.used = &v
		if wrongFirst {
			o := cp2(g.Outputs)
			for i := range o {
				for j := range o[i] {
					x := fint(int64(i + 3*j + 1))
					o[i][j].Add(&o[i][j], &x)
				}
			}
			v.Verify(g.Proof, g.Inputs, o)
		} else {
			v.Verify(g.Proof, g.Inputs, g.Outputs)
		}
	}
	if again := g.used.Verify(proof, in, out); again != fresh {
		return []bool{fresh, again}
	}
	if again, done := g.inPlace(proof, in, out); done && again != fresh {
		return []bool{fresh, again}
	}
	return []bool{fresh}
}

func proofJ(p gkr.Proof) J {
	polys := make([][]Fs1, len(p.SumcheckProofs))
	for i := range polys {
		polys[i] = fs2(p.SumcheckProofs[i].PolyCoeffs)
	}
	return J{"polys": polys, "left": Fs1(p.ClaimsLeft), "right": Fs1(p.ClaimsRight)}
}

func cpProof(p gkr.Proof) gkr.Proof {
	q := gkr.Proof{ClaimsLeft: cp1(p.ClaimsLeft), ClaimsRight: cp1(p.ClaimsRight)}
	for _, s := range p.SumcheckProofs {
		q.SumcheckProofs = append(q.SumcheckProofs, sumcheck.Proof{PolyCoeffs: cp2(s.PolyCoeffs)})
	}
	return q
}

// stmtJ describes a statement, a proof and the verdict of the code about it
func (g *gkrRun) stmtJ(judge string, proof gkr.Proof, in, out [][]fr.Element, verdict bool) J {
	// the announced initial point: how it may depend on the statement is C03's business
	qp, q := gkr.GetInitialQPrimeAndQ(g.BN, g.C.BG[len(g.C.Layers)])
	return J{"kind": "gkr", "judge": judge, "bn": g.BN, "layers": g.C.Desc, "q": Fs1(q), "qp": Fs1(qp),
		"inputs": fs2(in), "outputs": fs2(out), "proof": proofJ(proof), "verdict": verdict}
}

func mimcCirc() *Circ {
	layers := make([][]W, 91)
	for i := range layers {
		layers[i] = []W{{1, 0, 0, gCipher(arks[i])}}
		if i < 90 {
			layers[i] = append(layers[i], W{1, 0, 1, gCopy()})
		}
	}
	return newCirc(layers)
}
