package main

import (
	"fmt"

	"gkr-mimc/circuit"
	"gkr-mimc/polynomial"
	gkrsnark "gkr-mimc/snark/gkr"
	hashsnark "gkr-mimc/snark/hash"
	polysnark "gkr-mimc/snark/polynomial"
	sumsnark "gkr-mimc/snark/sumcheck"
	"gkr-mimc/sumcheck"

	"github.com/consensys/gnark/backend/r1cs"
	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gurvy"
	"github.com/consensys/gurvy/bn256/fr"
)

// how the inputs of a gadget reach it
const (
	asVariables = iota
	asSums      // as x = a + b
	asConstants
	asMixture // some of each, and some the same variable as others
)

// gadgetCircuit applies a gadget to inputs and compares the result with the claimed outputs
type gadgetCircuit struct {
	In, In2, Out []frontend.Variable
	F            func(cs *frontend.ConstraintSystem, in []frontend.Variable) []frontend.Variable `gnark:"-"`
	Kinds, Alias []int                                                                           `gnark:"-"`
	Const        []fr.Element                                                                    `gnark:"-"`
}

// Define the circuit
func (c *gadgetCircuit) Define(curveID gurvy.ID, cs *frontend.ConstraintSystem) error {
	in := make([]frontend.Variable, len(c.In))
	for i := range in {
		switch c.Kinds[i] {
		case asVariables:
			in[i] = c.In[c.Alias[i]]
		case asSums:
			in[i] = cs.Add(c.In[i], c.In2[i])
		case asConstants:
			in[i] = cs.Constant(c.Const[i])
		}
	}
	out := c.F(cs, in)
	if len(out) != len(c.Out) {
		return fmt.Errorf("%d outputs, %d claimed", len(out), len(c.Out))
	}
	for i := range out {
		cs.AssertIsEqual(c.Out[i], out[i])
	}
	return nil
}

func vars(n int) []frontend.Variable { return make([]frontend.Variable, n) }

// gadget is a compiled gadget
type gadget struct {
	nIn, nOut    int
	kinds, alias []int
	consts       []fr.Element
	cs           r1cs.R1CS
}

type gadgetFunc func(cs *frontend.ConstraintSystem, in []frontend.Variable) []frontend.Variable

func (r *R) compileGadget(nIn, nOut, mode int, consts []fr.Element, f gadgetFunc) *gadget {
	kinds, alias := make([]int, nIn), make([]int, nIn)
	for i := range kinds {
		kinds[i], alias[i] = mode, i
		if mode == asMixture {
			kinds[i] = r.pick(asVariables, asVariables, asSums, asConstants)
			if j := r.Intn(i + 1); kinds[i] == asVariables && kinds[j] == asVariables && r.Intn(2) == 0 {
				alias[i] = alias[j]
			}
		}
	}
	c := &gadgetCircuit{In: vars(nIn), In2: vars(nIn), Out: vars(nOut), F: f, Kinds: kinds, Alias: alias, Const: consts}
	cs, err := frontend.Compile(gurvy.BN256, c)
	if err != nil {
		panic(err)
	}
	return &gadget{nIn, nOut, kinds, alias, cp1(consts), cs}
}

// settle gives the inputs that are constants or the same variable as another the value they have
func (g *gadget) settle(in []fr.Element) []fr.Element {
	in = cp1(in)
	for i := range in {
		if g.kinds[i] == asConstants {
			in[i] = g.consts[i]
		}
		in[i] = in[g.alias[i]]
	}
	return in
}

// solved reports whether the constraint system is satisfied
func (g *gadget) solved(r *R, in, out []fr.Element) bool {
	w := &gadgetCircuit{In: vars(g.nIn), In2: vars(g.nIn), Out: vars(g.nOut), Kinds: g.kinds, Alias: g.alias}
	for i := range in {
		a, b := in[i], fr.Element{}
		if g.kinds[i] == asSums {
			b = r.elt()
			a.Sub(&a, &b)
		}
		w.In[i].Assign(a)
		w.In2[i].Assign(b)
	}
	for i := range out {
		w.Out[i].Assign(out[i])
	}
	return isSolved(g.cs, w)
}

func isSolved(cs r1cs.R1CS, w frontend.Circuit) bool {
	m, err := frontend.ParseWitness(w)
	if err != nil {
		panic(err)
	}
	ok := false
	try(func() { ok = cs.IsSolved(m) == nil })
	return ok
}

// nudge returns alterations of v
func (r *R) nudge(v []fr.Element) [][]fr.Element {
	res := [][]fr.Element{}
	if len(v) == 0 {
		return res
	}
	for k := 0; k < 2; k++ {
		x := cp1(v)
		i := r.Intn(len(v))
		if k == 0 && r.Intn(2) == 0 {
			i = len(v) - 1
		}
		d := r.val()
		if d.IsZero() {
			d = fint(1)
		}
		x[i].Add(&x[i], &d)
		res = append(res, x)
	}
	if len(v) > 1 {
		x := cp1(v)
		i := r.Intn(len(v) - 1)
		x[i], x[i+1] = x[i+1], x[i]
		res = append(res, x)
	}
	return res
}

// shapeIn cuts the flat inputs of a gadget into what the specification calls them
type shapeIn func(in []fr.Element) J

// gadgetCase records one compiled gadget under several witnesses
func (e *Env) gadgetCase(name string, nIn, nOut, mode int, base []fr.Element, f gadgetFunc, shape shapeIn,
	want func(in []fr.Element) []fr.Element, more [][]fr.Element, note string) {
	r := e.R
	g := r.compileGadget(nIn, nOut, mode, base, f)
	runs := []J{}
	add := func(in, out []fr.Element) {
		runs = append(runs, J{"in": shape(cp1(in)), "out": Fs1(cp1(out)), "solved": g.solved(r, in, out)})
	}
	ins := [][]fr.Element{base}
	if mode != asConstants {
		ins = append(ins, more...)
		ins = append(ins, r.vec(nIn, r.style()))
	}
	for k, in := range ins {
		in = g.settle(in)
		out := want(in)
		add(in, out)
		if k > 0 && k < len(ins)-1 {
			continue
		}
		for _, bad := range r.nudge(out) {
			add(in, bad)
		}
		add(in, make([]fr.Element, nOut))
		// the outputs of other inputs
		if mode != asConstants {
			for _, near := range r.nudge(in) {
				add(g.settle(near), out)
			}
		}
	}
	e.Emit(J{"kind": "gadget", "g": name, "runs": runs, "note": fmt.Sprintf("%s %s, inputs as %s", name, note,
		[]string{"variables", "sums", "constants", "a mixture"}[mode])})
}

// wantFrom asks the code's native counterpart, which the specification judges on its own; where there is
// none it computes the value here.  Only used to hit satisfied witnesses: the verdict is TLC's.
func (e *Env) runGadget(which string, mode int) {
	r := e.R
	one := func(x fr.Element) []fr.Element { return []fr.Element{x} }
	switch which {
	case "hash":
		n := r.Intn(7)
		if e.Idx%9 == 5 {
			n = 7 + r.Intn(16)
		}
		if e.Idx%45 == 41 {
			n = r.pick(31, 32, 33, 64, 65)
		}
		e.gadgetCase("hash", n, 1, mode, r.vec(n, r.style()),
			func(cs *frontend.ConstraintSystem, in []frontend.Variable) []frontend.Variable {
				return []frontend.Variable{hashsnark.MimcHash(cs, in...)}
			},
			func(in []fr.Element) J { return J{"msg": Fs1(in)} },
			func(in []fr.Element) []fr.Element { return one(challengeOf(in)) }, nil, fmt.Sprintf("of %d", n))
	case "ueq":
		e.gadgetCase("ueq", 2, 1, mode, cat(r.pair(1, vsMixed)),
			func(cs *frontend.ConstraintSystem, in []frontend.Variable) []frontend.Variable {
				return []frontend.Variable{polysnark.UnivariateEqEval(cs, in[0], in[1])}
			},
			func(in []fr.Element) J { return J{"q": Fs1(in[:1]), "h": Fs1(in[1:])} },
			func(in []fr.Element) []fr.Element { return one(eqOf(in[:1], in[1:])) },
			[][]fr.Element{{fint(0), fint(0)}, {fint(1), fint(1)}, {fint(0), fint(1)}}, "")
	case "eq":
		n := r.pick(r.Intn(5), r.Intn(5), r.Intn(40), r.Intn(40), 60+r.Intn(10))
		e.gadgetCase("eq", 2*n, 1, mode, cat(r.pair(n, vsMixed)),
			func(cs *frontend.ConstraintSystem, in []frontend.Variable) []frontend.Variable {
				return []frontend.Variable{polysnark.EqEval(cs, in[:n], in[n:])}
			},
			func(in []fr.Element) J { return J{"q": Fs1(in[:n]), "h": Fs1(in[n:])} },
			func(in []fr.Element) []fr.Element { return one(eqOf(in[:n], in[n:])) }, nil, fmt.Sprintf("of %d", n))
	case "mleval":
		n := r.pick(r.Intn(5), r.Intn(5), r.Intn(5), r.Intn(5), 5+r.Intn(2), 5+r.Intn(2), 5+r.Intn(2), 7+r.Intn(2))
		s := 1 << uint(n)
		e.gadgetCase("mleval", s+n, 1+s, mode, append(r.vec(s, r.style()), r.vec(n, vsMixed)...),
			func(cs *frontend.ConstraintSystem, in []frontend.Variable) []frontend.Variable {
				m := polysnark.NewMultilinearByValues(append([]frontend.Variable{}, in[:s]...))
				v := m.Eval(cs, in[s:])
				return append([]frontend.Variable{v}, m.Table...)
			},
			func(in []fr.Element) J { return J{"tab": Fs1(in[:s]), "pt": Fs1(in[s:])} },
			func(in []fr.Element) []fr.Element { return append(one(evalMLE(in[:s], in[s:])), in[:s]...) },
			nil, fmt.Sprintf("of %d variables", n))
	case "mlmixed":
		bg, bn := r.Intn(3), r.Intn(3)
		if r.Intn(4) == 0 {
			bg, bn = r.Intn(4), r.pick(r.Intn(5), r.Intn(5), r.Intn(5), 5)
		}
		s := 1 << uint(bg+bn)
		e.gadgetCase("mlmixed", s+2*bg+bn, 2+s, mode, cat(r.vec(s, r.style()), cat(cat(r.pair(bg, vsMixed)), r.vec(bn, vsMixed))),
			func(cs *frontend.ConstraintSystem, in []frontend.Variable) []frontend.Variable {
				m := polysnark.NewMultilinearByValues(append([]frontend.Variable{}, in[:s]...))
				l, rr := m.EvalMixed(cs, in[s:s+bg], in[s+bg:s+2*bg], in[s+2*bg:])
				return append([]frontend.Variable{l, rr}, m.Table...)
			},
			func(in []fr.Element) J {
				return J{"tab": Fs1(in[:s]), "hl": Fs1(in[s : s+bg]), "hr": Fs1(in[s+bg : s+2*bg]), "hp": Fs1(in[s+2*bg:])}
			},
			func(in []fr.Element) []fr.Element {
				hl, hr, hp := in[s:s+bg], in[s+bg:s+2*bg], in[s+2*bg:]
				return append([]fr.Element{evalMLE(in[:s], append(cp1(hl), hp...)), evalMLE(in[:s], append(cp1(hr), hp...))}, in[:s]...)
			}, nil, fmt.Sprintf("bG=%d bN=%d", bg, bn))
	case "mlfold":
		n := 1 + r.pick(r.Intn(4), r.Intn(4), r.Intn(4), 4+r.Intn(4))
		s := 1 << uint(n)
		e.gadgetCase("mlfold", s+1, s/2+s, mode, append(r.vec(s, r.style()), r.val()),
			func(cs *frontend.ConstraintSystem, in []frontend.Variable) []frontend.Variable {
				m := polysnark.NewMultilinearByValues(append([]frontend.Variable{}, in[:s]...))
				d := m.DeepCopy()
				d.Fold(cs, in[s])
				return append(append([]frontend.Variable{}, d.Table...), m.Table...)
			},
			func(in []fr.Element) J { return J{"tab": Fs1(in[:s]), "x": F(in[s])} },
			func(in []fr.Element) []fr.Element {
				b := bkt(in[:s])
				b.Fold(in[s])
				return append(cp1(b.Table), in[:s]...)
			}, nil, fmt.Sprintf("of %d variables", n))
	case "unieval":
		n := r.pick(1+r.Intn(6), 1+r.Intn(16), 8+r.Intn(4), 12+r.Intn(70))
		e.gadgetCase("unieval", n+1, 1, mode, append(r.vec(n, r.style()), r.val()),
			func(cs *frontend.ConstraintSystem, in []frontend.Variable) []frontend.Variable {
				u := polysnark.NewUnivariate(append([]frontend.Variable{}, in[:n]...))
				return []frontend.Variable{u.Eval(cs, in[n])}
			},
			func(in []fr.Element) J { return J{"cs": Fs1(in[:n]), "x": F(in[n])} },
			func(in []fr.Element) []fr.Element { return one(evalPoly(in[:n], in[n])) }, nil, fmt.Sprintf("of %d coefficients", n))
	case "zeroone":
		n := r.pick(1+r.Intn(6), 1+r.Intn(16), 8+r.Intn(4), 12+r.Intn(70))
		e.gadgetCase("zeroone", n, 1, mode, r.vec(n, r.style()),
			func(cs *frontend.ConstraintSystem, in []frontend.Variable) []frontend.Variable {
				u := polysnark.NewUnivariate(append([]frontend.Variable{}, in...))
				return []frontend.Variable{u.ZeroAndOne(cs)}
			},
			func(in []fr.Element) J { return J{"cs": Fs1(in)} },
			func(in []fr.Element) []fr.Element { return one(sum01(in)) }, nil, fmt.Sprintf("of %d coefficients", n))
	case "gate":
		type gf struct {
			desc J
			f    func(cs *frontend.ConstraintSystem, l, r frontend.Variable) frontend.Variable
			g    circuit.Gate
		}
		ark := r.val()
		if e.Idx%3 == 0 {
			ark = fr.Element{}
		}
		gs := []G{gAdd(), gMul(), gCopy(), gCipher(ark)}
		fs := []gf{}
		for _, g := range gs {
			g := g
			fs = append(fs, gf{g.Desc, g.Code.GnarkEval, g.Code})
		}
		fs = append(fs, gf{gs[2].Desc, gkrsnark.CopyGate(), gs[2].Code}, gf{gs[3].Desc, gkrsnark.CipherGate(ark), gs[3].Code},
			gf{gs[3].Desc, gs[3].Code.GnarkEval, gs[3].Code})
		x := fs[e.Idx/4%len(fs)]
		e.gadgetCase("gate", 2, 1, mode, cat(r.pair(1, vsMixed)),
			func(cs *frontend.ConstraintSystem, in []frontend.Variable) []frontend.Variable {
				return []frontend.Variable{x.f(cs, in[0], in[1])}
			},
			func(in []fr.Element) J { return J{"gate": x.desc, "l": F(in[0]), "r": F(in[1])} },
			func(in []fr.Element) []fr.Element {
				var res fr.Element
				x.g.Eval(&res, &in[0], &in[1])
				return one(res)
			},
			[][]fr.Element{{fint(0), fint(0)}, {fint(1), fint(-1)}, {r.elt(), r.elt()}}, fmt.Sprint(x.desc["k"]))
	}
}

func eqOf(q, h []fr.Element) fr.Element {
	res := fint(1)
	for i := range q {
		var a, b, one fr.Element
		one.SetOne()
		a.Mul(&q[i], &h[i])
		b.Sub(&one, &q[i])
		one.Sub(&one, &h[i])
		b.Mul(&b, &one)
		a.Add(&a, &b)
		res.Mul(&res, &a)
	}
	return res
}

// chunksCircuit receives a table through AssignFromChunkedBKT
type chunksCircuit struct {
	M   polysnark.MultilinearByValues
	Out []frontend.Variable
}

// Define the circuit
func (c *chunksCircuit) Define(curveID gurvy.ID, cs *frontend.ConstraintSystem) error {
	for i := range c.Out {
		cs.AssertIsEqual(c.Out[i], c.M.Table[i])
	}
	return nil
}

func (e *Env) chunksCase() {
	r := e.R
	n := r.Intn(6)
	mk := func() *chunksCircuit {
		return &chunksCircuit{M: polysnark.AllocateMultilinear(n), Out: vars(1 << uint(n))}
	}
	cs, err := frontend.Compile(gurvy.BN256, mk())
	if err != nil {
		panic(err)
	}
	runs := []J{}
	for k := 0; k <= n; k++ {
		t := r.vec(1<<uint(n), vsRandom)
		chunks := chunked(t, 1<<uint(k))
		outs := append([][]fr.Element{t}, r.nudge(t)...)
		outs = append(outs, flat(chunks))
		for _, o := range outs {
			w := mk()
			w.M.AssignFromChunkedBKT(chunks)
			for i := range o {
				w.Out[i].Assign(o[i])
			}
			runs = append(runs, J{"in": J{"chunks": fs2(chunks)}, "out": Fs1(o), "solved": isSolved(cs, w)})
			if k > 0 {
				continue
			}
			// the values one after the other
			w = mk()
			vals := make([]interface{}, len(t))
			for i := range t {
				vals[i] = t[i]
			}
			w.M.Assign(vals)
			for i := range o {
				w.Out[i].Assign(o[i])
			}
			runs = append(runs, J{"in": J{"chunks": fs2(chunks)}, "out": Fs1(o), "solved": isSolved(cs, w)})
		}
	}
	e.Emit(J{"kind": "gadget", "g": "chunks", "runs": runs, "note": fmt.Sprintf("assignment of %d variables from chunks", n)})
}

func flat(x [][]fr.Element) []fr.Element {
	res := []fr.Element{}
	for i := range x {
		res = append(res, x[i]...)
	}
	return res
}

// sumCircuit runs the sumcheck gadget
type sumCircuit struct {
	P     sumsnark.Proof
	Claim frontend.Variable
	Out   []frontend.Variable
	BG    int `gnark:"-"`
}

func newSumCircuit(bN, bG int, d [3]int) *sumCircuit {
	return &sumCircuit{P: sumsnark.AllocateProof(bN, bG, d[0], d[1], d[2]), Out: vars(2*bG + bN + 1), BG: bG}
}

// Define the circuit
func (c *sumCircuit) Define(curveID gurvy.ID, cs *frontend.ConstraintSystem) error {
	hL, hR, hP, last := c.P.AssertValid(cs, c.Claim, c.BG)
	out := append(append(append(append([]frontend.Variable{}, hL...), hR...), hP...), last)
	if len(hL) != c.BG || len(hR) != c.BG || len(out) != len(c.Out) {
		return fmt.Errorf("%d + %d + %d challenges", len(hL), len(hR), len(hP))
	}
	for i := range out {
		cs.AssertIsEqual(out[i], c.Out[i])
	}
	return nil
}

// sumGadget compiles the sumcheck gadget for a layout and returns a function that records a witness
func sumGadget(bN, bG int, d [3]int) (func(claim fr.Element, polys [][]fr.Element, out []fr.Element) J, error) {
	cs, err := frontend.Compile(gurvy.BN256, newSumCircuit(bN, bG, d))
	if err != nil {
		return nil, err
	}
	return func(claim fr.Element, polys [][]fr.Element, out []fr.Element) J {
		w := newSumCircuit(bN, bG, d)
		w.P.Assign(sumcheck.Proof{PolyCoeffs: cp2(polys)})
		w.Claim.Assign(claim)
		for i := range out {
			w.Out[i].Assign(out[i])
		}
		return J{"in": J{"claim": F(claim), "polys": fs2(polys)}, "out": Fs1(cp1(out)), "solved": isSolved(cs, w)}
	}, nil
}

func sumOut(claim fr.Element, polys [][]fr.Element) []fr.Element {
	out := []fr.Element{}
	last := claim
	for _, p := range polys {
		x := challengeOf(p)
		last = evalPoly(p, x)
		out = append(out, x)
	}
	return append(out, last)
}

func (e *Env) sumGadgetCase() {
	r := e.R
	bG, bN := r.Intn(3), r.Intn(3)
	if r.Intn(6) == 0 {
		bG, bN = r.Intn(4), r.Intn(7)
	}
	var d [3]int
	runs := []J{}
	note := ""
	if e.Idx%2 == 0 { // transcripts with at most one inconsistent round
		d = [3]int{1 + r.Intn(4), 1 + r.Intn(8), 1 + r.Intn(8)}
		variants := 10
		if r.Intn(5) == 0 { // many rounds
			bG, bN = r.pick(0, 1, 2, 17), 30+r.Intn(30)
			d = [3]int{1, 1 + r.Intn(2), 1 + r.Intn(2)}
			variants = 4
		}
		rec, err := sumGadget(bN, bG, d)
		if err != nil {
			panic(err)
		}
		for how := 0; how < variants; how++ {
			t := r.transcript(bN, bG, [3]int{d[0] + 1, d[1] + 1, d[2] + 1}, []int{0, 1, 2, 3, 4, 7, 7, 1, 5, 4}[how])
			runs = append(runs, rec(t.claim, t.polys, sumOut(t.claim, t.polys)))
			if how == 0 {
				for _, o := range r.nudge(sumOut(t.claim, t.polys)) {
					runs = append(runs, rec(t.claim, t.polys, o))
				}
			}
		}
		note = "transcripts"
	} else { // what the native prover produces
		i := r.inst(bN, bG, 2)
		for _, g := range i.Gates {
			a, b, c := g.Code.Degrees()
			for k, x := range []int{a, b, c} {
				if x+1 > d[k] {
					d[k] = x + 1
				}
			}
		}
		p := i.single()
		claim := p.GetClaim()
		proof, _, _, _, _ := p.Prove()
		rec, err := sumGadget(bN, bG, d)
		if err != nil {
			panic(err)
		}
		runs = append(runs, rec(claim, proof.PolyCoeffs, sumOut(claim, proof.PolyCoeffs)))
		for _, x := range r.nudge([]fr.Element{claim}) {
			runs = append(runs, rec(x[0], proof.PolyCoeffs, sumOut(claim, proof.PolyCoeffs)))
		}
		for k := 0; k < 2*len(proof.PolyCoeffs); k++ {
			q := cp2(proof.PolyCoeffs)
			j := r.Intn(len(q))
			q[j] = r.nudge(q[j])[0]
			runs = append(runs, rec(claim, q, sumOut(claim, q)))
		}
		note = "native proof"
	}
	e.Emit(J{"kind": "gadget", "g": "sumcheck", "runs": runs, "note": fmt.Sprintf("sumcheck of a %s bN=%d bG=%d", note, bN, bG)})
}

// ---- gates ----

func init() {
	props["C14"] = &Prop{Count: tierCount(300+60+20+30, 2500+600+200+300), Run: runC14}
	props["C16"] = &Prop{Count: tierCount(600, 4000), Run: runC16}
}

func runC14(e *Env) {
	r := e.R
	n1, n2, n3 := 300, 60, 20
	if !e.Quick {
		n1, n2, n3 = 2500, 600, 200
	}
	switch {
	case e.Idx < n1:
		var g G
		switch e.Idx % 6 {
		case 0:
			g = gAdd()
		case 1:
			g = gMul()
		case 2:
			g = gCopy()
		default:
			g = gCipher(r.val())
		}
		n := r.pick(1, 1, 2, 3, 5, 8, 17)
		if e.Idx%20 == 11 {
			n = r.pick(32, 33, 64, 130, 257, 301+r.Intn(60))
		}
		ls, rs := r.pair(n, r.style())
		la, ra := cp1(ls), cp1(rs)
		garbage := r.vec(n, vsRandom)
		single, manyL, manyR := cp1(garbage), cp1(garbage), cp1(garbage)
		if r.Intn(2) == 0 { // other operands were there before
			copy(la, garbage)
			copy(ra, r.like(rs))
			g.Code.Eval(&single[0], &la[0], &ra[0])
			g.Code.EvalManyVL(manyL, la, &ra[0])
			g.Code.EvalManyVR(manyR, &la[0], ra)
			copy(la, ls)
			copy(ra, rs)
		}
		for i := range single {
			g.Code.Eval(&single[i], &la[i], &ra[i])
		}
		g.Code.EvalManyVL(manyL, la, &ra[0])
		g.Code.EvalManyVR(manyR, &la[0], ra)
		a, b, c := g.Code.Degrees()
		e.Emit(J{"kind": "gate", "gate": g.Desc, "degs": []int{a, b, c}, "ls": Fs1(ls), "rs": Fs1(rs),
			"single": Fs1(single), "manyL": Fs1(manyL), "manyR": Fs1(manyR), "lsAfter": Fs1(la), "rsAfter": Fs1(ra),
			"note": fmt.Sprintf("%v, %d operands", g.Desc["k"], n)})
	case e.Idx < n1+n2:
		e.runGadget("gate", e.Idx%4)
	case e.Idx < n1+n2+n3:
		gs := []G{gAdd(), gMul(), gCopy()}
		base := r.elt()
		for _, a := range r.closeArks(base) {
			gs = append(gs, gCipher(a))
		}
		for i := 0; i < 6; i++ {
			gs = append(gs, gCipher(arks[r.Intn(len(arks))]), gCipher(r.val()))
		}
		descs, ids := []J{}, []string{}
		for _, g := range gs {
			descs = append(descs, g.Desc)
			ids = append(ids, g.Code.ID())
		}
		e.Emit(J{"kind": "ids", "gates": descs, "ids": ids, "note": fmt.Sprintf("%d gates", len(gs))})
	default:
		n := 1 + r.Intn(4)
		gs, descs := []circuit.Gate{}, []J{}
		for i := 0; i < n; i++ {
			g := r.gate(true)
			gs, descs = append(gs, g.Code), append(descs, g.Desc)
		}
		st := r.vec(n, r.style())
		l, rr, eq := r.val(), r.val(), r.val()
		res := circuit.EvaluateCombinator(&l, &rr, &eq, gs, st)
		e.Emit(J{"kind": "combine", "gates": descs, "statics": Fs1(st), "eq": F(eq), "l": F(l), "r": F(rr), "res": F(res),
			"note": fmt.Sprintf("combination of %d gates", n)})
	}
}

// closeArks returns constants that agree with base in some of their digits
func (r *R) closeArks(base fr.Element) []fr.Element {
	res := []fr.Element{base}
	add := func(f func(x *fr.Element)) {
		x := base.ToRegular()
		f(&x)
		x[3] %= 0x30644e72e131a029
		res = append(res, *(&fr.Element{x[0], x[1], x[2], x[3]}).ToMont())
	}
	for i := 0; i < 4; i++ {
		i := i
		add(func(x *fr.Element) { x[i] = uint64(r.Int63()) })
		add(func(x *fr.Element) { x[i] ^= 1 })
		add(func(x *fr.Element) { x[i] ^= 1 << 40 })
		add(func(x *fr.Element) {
			y := x[i]
			*x = fr.Element{}
			x[i] = y
		})
	}
	var neg fr.Element
	neg.Neg(&base)
	// small ones, whose decimal writings are prefixes and suffixes of each other
	for _, v := range []int64{0, 1, -1, 10, 100, 12, 112, 1112, 1 << 32, 1<<32 + 1, 1 << 62} {
		res = append(res, fint(v))
	}
	return append(res, neg)
}

func runC16(e *Env) {
	kinds := []string{"hash", "ueq", "eq", "mleval", "mlmixed", "mlfold", "unieval", "zeroone", "chunks", "sumcheck", "sumcheck"}
	k := kinds[e.Idx%len(kinds)]
	switch k {
	case "chunks":
		e.chunksCase()
	case "sumcheck":
		e.sumGadgetCase()
	default:
		e.runGadget(k, e.Idx/len(kinds)%4)
	}
}

var _ = polynomial.GetFoldedEqTable
