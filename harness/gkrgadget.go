package main

import (
	"fmt"
	"sync"

	"gkr-mimc/gkr"
	gkrsnark "gkr-mimc/snark/gkr"
	polysnark "gkr-mimc/snark/polynomial"

	"github.com/consensys/gnark/backend/r1cs"
	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gurvy"
	"github.com/consensys/gurvy/bn256/fr"
)

// gkrCircuit runs the GKR verification gadget on a proof
type gkrCircuit struct {
	Circuit  gkrsnark.Circuit `gnark:"-"`
	Proof    gkrsnark.Proof
	Q, QP    []frontend.Variable
	VIn, VOu polysnark.MultilinearByValues
}

func newGkrCircuit(bN int) *gkrCircuit {
	c := gkrsnark.CreateMimcCircuit()
	return &gkrCircuit{
		Circuit: c,
		Proof:   gkrsnark.AllocateProof(bN, c),
		QP:      vars(bN),
		VIn:     polysnark.AllocateMultilinear(bN + 1),
		VOu:     polysnark.AllocateMultilinear(bN),
	}
}

// Define the circuit
func (c *gkrCircuit) Define(curveID gurvy.ID, cs *frontend.ConstraintSystem) error {
	c.Proof.AssertValid(cs, c.Circuit, c.Q, c.QP, c.VIn, c.VOu)
	return nil
}

var gkrCompiled = map[int]r1cs.R1CS{}

func compiledGkr(bN int) r1cs.R1CS {
	if cs, ok := gkrCompiled[bN]; ok {
		return cs
	}
	cs, err := frontend.Compile(gurvy.BN256, newGkrCircuit(bN))
	if err != nil {
		panic(err)
	}
	gkrCompiled[bN] = cs
	return cs
}

func gkrSolved(bN int, p gkr.Proof, in, out [][]fr.Element, qp []fr.Element) bool {
	w := newGkrCircuit(bN)
	w.Proof.Assign(p)
	for i := range qp {
		w.QP[i].Assign(qp[i])
	}
	w.VIn.AssignFromChunkedBKT(in)
	w.VOu.AssignFromChunkedBKT(out)
	return isSolved(compiledGkr(bN), w)
}

type gkrWitness struct {
	p       gkr.Proof
	in, out [][]fr.Element
	qp      []fr.Element
	note    string
}

// mimcWitnesses returns an honest witness and altered ones
func (r *R) mimcWitnesses(bN, nChunks int) (*gkrRun, []gkrWitness) {
	g := r.mimcRun(bN, nChunks, 1+r.Intn(4))
	qp, _ := gkr.GetInitialQPrimeAndQ(bN, 0)
	res := []gkrWitness{{g.Proof, g.Inputs, g.Outputs, qp, "honest proof"}}
	add := func(p gkr.Proof, in, out [][]fr.Element, qp []fr.Element, note string) {
		res = append(res, gkrWitness{p, in, out, qp, note})
	}
	for k := 0; k < 6; k++ {
		p, note := r.mutateProof(g, k)
		add(p, g.Inputs, g.Outputs, qp, note)
	}
	for k := 0; k < 6; k++ {
		if p, note, ok := r.forge(g); ok {
			add(p, g.Inputs, g.Outputs, qp, note)
		}
	}
	delta := r.elt()
	alter := func(x [][]fr.Element) [][]fr.Element {
		y := cp2(x)
		c := r.Intn(len(y))
		i := r.Intn(len(y[c]))
		y[c][i].Add(&y[c][i], &delta)
		return y
	}
	add(g.Proof, alter(g.Inputs), g.Outputs, qp, "one input altered")
	add(g.Proof, g.Inputs, alter(g.Outputs), qp, "one output altered")
	if bN > 0 {
		q := cp1(qp)
		i := r.Intn(bN)
		q[i].Add(&q[i], &delta)
		add(g.Proof, g.Inputs, g.Outputs, q, "initial point altered")
		if t, ok := r.kernelShift(unchunk(g.Outputs), qp); ok {
			add(g.Proof, g.Inputs, chunked(t, nChunks), qp, "outputs altered, extension kept at the initial point")
		}
	}
	hL, hR, hP := pointOf(g, g.Proof, 0)
	for side, pt := range [][]fr.Element{append(cp1(hL), hP...), append(cp1(hR), hP...)} {
		if t, ok := r.kernelShift(unchunk(g.Inputs), pt); ok {
			add(g.Proof, chunked(t, nChunks), g.Outputs, qp, fmt.Sprintf("inputs altered, extension kept at the point of side %d", side))
		}
	}
	r.otherInputs(g, func(in [][]fr.Element, note string) { add(g.Proof, in, g.Outputs, qp, note) })
	r.oneFails(g, 6, func(p gkr.Proof, in, out [][]fr.Element, note string) { add(p, in, out, qp, note) })
	p, in, out, note := r.splice(g)
	add(p, in, out, qp, note)
	return g, res
}

// mimcLayer describes a layer of the MiMC circuit
func mimcLayer(i int) J { return mimcCirc().Desc[i] }

// layerGadgets records the wiring tables and combinations of the layers of the MiMC gadget
func (e *Env) layerGadgets() {
	r := e.R
	c := gkrsnark.CreateMimcCircuit()
	i := r.pick(0, 1, r.Intn(91), r.Intn(91), 89, 90, 90)
	l := c.Layers[i]
	d := mimcLayer(i)
	nq := 1
	if i == 90 {
		nq = 0
	}
	mode := r.pick(asVariables, asVariables, asSums, asMixture)
	note := fmt.Sprintf("of layer %d", i)
	gates := d["gates"].([]J)
	ws := mimcCirc().Layers[i]
	one := func(x fr.Element) []fr.Element { return []fr.Element{x} }
	switch e.R.Intn(3) {
	case 0:
		k := r.Intn(len(l.StaticTable))
		e.gadgetCase("static", nq, 4, mode, r.vec(nq, vsMixed),
			func(cs *frontend.ConstraintSystem, in []frontend.Variable) []frontend.Variable {
				return l.StaticTable[k](cs, in).Table
			},
			func(in []fr.Element) J { return J{"wires": d["wires"], "gate": gates[k], "q": Fs1(in), "ni": 2} },
			func(in []fr.Element) []fr.Element { return staticOf(ws, gates[k], in) }, nil, note)
	case 1:
		bn := r.Intn(4)
		n := nq + 2*bn + 4
		cut := func(in []fr.Element) (q, qp, hl, hr, hp []fr.Element, vl, vr fr.Element) {
			return in[:nq], in[nq : nq+bn], in[nq+bn : nq+bn+1], in[nq+bn+1 : nq+bn+2], in[nq+bn+2 : nq+2*bn+2], in[n-2], in[n-1]
		}
		q, _ := r.pair(nq, vsMixed)
		qp, hp := r.pair(bn, vsMixed)
		hl, hr := r.pair(1, vsMixed)
		e.gadgetCase("combine", n, 1, mode, cat(cat(cat(q, qp), cat(hl, hr)), cat(hp, cat(r.pair(1, vsMixed)))),
			func(cs *frontend.ConstraintSystem, in []frontend.Variable) []frontend.Variable {
				return []frontend.Variable{l.Combine(cs, in[:nq], in[nq:nq+bn], in[nq+bn:nq+bn+1], in[nq+bn+1:nq+bn+2],
					in[nq+bn+2:nq+2*bn+2], in[n-2], in[n-1])}
			},
			func(in []fr.Element) J {
				q, qp, hl, hr, hp, vl, vr := cut(in)
				return J{"layer": d, "srcs": []J{{"w": F(fint(1)), "q": Fs1(q)}}, "qp": Fs1(qp), "hl": Fs1(hl), "hr": Fs1(hr), "hp": Fs1(hp),
					"l": F(vl), "r": F(vr)}
			},
			func(in []fr.Element) []fr.Element {
				q, qp, hl, hr, hp, vl, vr := cut(in)
				return one(combinedOf(ws, gates, []fr.Element{fint(1)}, [][]fr.Element{q}, qp, hl, hr, hp, vl, vr))
			}, [][]fr.Element{r.vec(n, vsRandom)}, note)
	case 2:
		bn := r.Intn(4)
		n := 2*nq + 2*bn + 6
		a := 2 * nq
		qp, hp := r.pair(bn, vsMixed)
		hl, hr := r.pair(1, vsMixed)
		ends := cat(cat(r.pair(1, vsMixed)), cat(r.pair(1, vsMixed))) // weights and values
		e.gadgetCase("combine", n, 1, mode, cat(cat(cat(cat(r.pair(nq, vsMixed)), qp), cat(hl, hr)), cat(hp, ends)),
			func(cs *frontend.ConstraintSystem, in []frontend.Variable) []frontend.Variable {
				return []frontend.Variable{l.CombineWithLinearComb(cs, in[:nq], in[nq:a], in[a:a+bn], in[a+bn:a+bn+1],
					in[a+bn+1:a+bn+2], in[a+bn+2:a+2*bn+2], in[n-4], in[n-3], in[n-2], in[n-1])}
			},
			func(in []fr.Element) J {
				return J{"layer": d, "srcs": []J{{"w": F(in[n-4]), "q": Fs1(in[:nq])}, {"w": F(in[n-3]), "q": Fs1(in[nq:a])}},
					"qp": Fs1(in[a : a+bn]), "hl": Fs1(in[a+bn : a+bn+1]), "hr": Fs1(in[a+bn+1 : a+bn+2]),
					"hp": Fs1(in[a+bn+2 : a+2*bn+2]), "l": F(in[n-2]), "r": F(in[n-1])}
			},
			func(in []fr.Element) []fr.Element {
				return one(combinedOf(ws, gates, in[n-4:n-2], [][]fr.Element{in[:nq], in[nq:a]}, in[a:a+bn],
					in[a+bn:a+bn+1], in[a+bn+1:a+bn+2], in[a+bn+2:a+2*bn+2], in[n-2], in[n-1]))
			}, [][]fr.Element{r.vec(n, vsRandom)}, "merged "+note)
	}
}

// bits of x, first one most significant, as field elements
func vertex(x, n int) []fr.Element {
	res := make([]fr.Element, n)
	for i := range res {
		res[i] = fint(int64(x >> uint(n-1-i) & 1))
	}
	return res
}

// staticOf and combinedOf only make witnesses that are expected to be satisfied
func staticOf(ws []W, gate J, q []fr.Element) []fr.Element {
	in, out := bgOf(ws)
	res := make([]fr.Element, 1<<uint(2*in))
	for _, w := range ws {
		if sameDesc(w.G.Desc, gate) {
			x := eqOf(q, vertex(w.O, out))
			k := w.L<<uint(in) + w.R
			res[k].Add(&res[k], &x)
		}
	}
	return res
}

func combinedOf(ws []W, gates []J, weights []fr.Element, qs [][]fr.Element, qp, hl, hr, hp []fr.Element, l, rr fr.Element) fr.Element {
	var res fr.Element
	for _, gd := range gates {
		var st, v fr.Element
		for i := range weights {
			x := evalMLE(staticOf(ws, gd, qs[i]), append(cp1(hl), hr...))
			x.Mul(&x, &weights[i])
			st.Add(&st, &x)
		}
		for _, w := range ws {
			if sameDesc(w.G.Desc, gd) {
				w.G.Code.Eval(&v, &l, &rr)
			}
		}
		st.Mul(&st, &v)
		res.Add(&res, &st)
	}
	e := eqOf(qp, hp)
	res.Mul(&res, &e)
	return res
}

func init() {
	sizes := map[bool][]int{true: {0, 1, 1, 2, 3, 5}, false: {0, 0, 1, 1, 1, 1, 2, 2, 2, 3, 3, 4, 5, 6, 7}}
	nLay := map[bool]int{true: 60, false: 800}
	each := map[bool][]int{true: {0}, false: {0, 1, 2}}
	props["C17"] = &Prop{
		Count: func(e *Env) int { return len(sizes[e.Quick]) + nLay[e.Quick] + 13*len(each[e.Quick]) },
		Run: func(e *Env) {
			if k := e.Idx - len(sizes[e.Quick]) - nLay[e.Quick]; k >= 0 {
				e.eachComparison(each[e.Quick][k/13], k%13)
				return
			}
			if e.Idx >= len(sizes[e.Quick]) {
				e.layerGadgets()
				return
			}
			e.gkrGadgetCase(sizes[e.Quick][e.Idx])
		},
	}
}

// eachComparison makes each comparison of seven layers in turn the only one that fails
func (e *Env) eachComparison(bN, part int) {
	r := e.R
	g := r.mimcRun(bN, r.batch(bN), 1+r.Intn(4))
	qp, _ := gkr.GetInitialQPrimeAndQ(bN, 0)
	var ws []gkrWitness
	for l := 7 * part; l < 7*part+7; l++ {
		for at := 0; at <= 2+bN; at++ {
			m := miss{target: l, at: at, gap: r.gap(), to: r.turn()}
			if m.gap.IsZero() {
				m.gap = fint(1)
			}
			if p, in, out, note, ok := r.failing(g, m); ok {
				ws = append(ws, gkrWitness{p, in, out, qp, note})
			}
		}
	}
	e.gadgetVerdicts(g, ws)
}

// gkrGadgetCase records the compiled verifier on honest, altered and forged witnesses
func (e *Env) gkrGadgetCase(bN int) {
	r := e.R
	nc := 1 << uint(r.Intn(bN+1))
	g, ws := r.mimcWitnesses(bN, nc)
	if bN > 4 || bN > 2 && e.Quick { // the honest one and some others
		rest := ws[1:]
		r.Shuffle(len(rest), func(i, j int) { rest[i], rest[j] = rest[j], rest[i] })
		ws = ws[:8]
	}
	e.gadgetVerdicts(g, ws)
}

// gadgetVerdicts records which witnesses solve the compiled verifier
func (e *Env) gadgetVerdicts(g *gkrRun, ws []gkrWitness) {
	bN, nc := g.BN, g.NChunks
	compiledGkr(bN)
	solved := make([]bool, len(ws))
	var wg sync.WaitGroup
	sem := make(chan bool, 4)
	for i := range ws {
		wg.Add(1)
		go func(i int) {
			sem <- true
			w := ws[i]
			solved[i] = gkrSolved(bN, w.p, w.in, w.out, w.qp)
			<-sem
			wg.Done()
		}(i)
	}
	wg.Wait()
	for i, w := range ws {
		c := g.stmtJ("exact", w.p, w.in, w.out, solved[i])
		c["q"], c["qp"] = Fs1{}, Fs1(w.qp)
		c["note"] = fmt.Sprintf("bN=%d, %d chunks: %s", bN, nc, w.note)
		e.Emit(c)
	}
}
