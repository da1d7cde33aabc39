package main

import (
	"fmt"
	"sync"
	"time"

	"gkr-mimc/circuit"
	"gkr-mimc/gkr"
	"gkr-mimc/polynomial"

	"github.com/consensys/gurvy/bn256/fr"
)

// batch is what a session is about, besides the circuit
type batch struct {
	bN     int
	inputs [][]fr.Element
	ver    gkr.Verifier
}

// session is a user of the library: objects, and calls on them
type session struct {
	e       *Env
	r       *R
	c       *Circ
	batches []batch
	assigns []circuit.Assignment
	aof     []int        // the batch of each assignment
	provers []gkr.Prover // provers[i] is kept with assigns[i]
	proofs  []gkr.Proof
	pof     []int // the batch of each proof
}

func circuitJ(c *circuit.Circuit) J {
	ls := []J{}
	for _, l := range c.Layers {
		ws := [][]interface{}{}
		for _, w := range l.Wires {
			ws = append(ws, []interface{}{w.L, w.R, w.O, w.Gate.ID()})
		}
		gs := []string{}
		for _, g := range l.Gates {
			gs = append(gs, g.ID())
		}
		ls = append(ls, J{"wires": ws, "gates": gs, "in": l.BGInputs, "out": l.BGOutputs})
	}
	return J{"layers": ls}
}

func valuesJ(a circuit.Assignment) [][]Fs1 {
	res := [][]Fs1{}
	for _, l := range a.Values {
		res = append(res, fs2(l))
	}
	return res
}

// heap is everything the user holds
func (s *session) heap() J {
	as, ps, ins := []J{}, []J{}, []interface{}{}
	for i, a := range s.assigns {
		as = append(as, J{"of": s.aof[i], "val": valuesJ(a)})
	}
	for i, p := range s.proofs {
		ps = append(ps, J{"of": s.pof[i], "val": proofJ(p)})
	}
	for _, b := range s.batches {
		ins = append(ins, fs2(b.inputs))
	}
	return J{"circuit": circuitJ(&s.c.Code), "inputs": ins, "assignments": as, "proofs": ps}
}

// newSession is about a circuit and one or two batches
func newSession(e *Env, maxLayers, maxBG, maxBN int) *session {
	s := &session{e: e, r: e.R}
	c := s.r.circ(maxLayers, maxBG, 5, true)
	s.use(c, s.r.Intn(maxBN+1))
	switch s.r.Intn(4) {
	case 0: // another size
		s.addBatch(s.r.Intn(maxBN + 1))
	case 1, 2:
		s.addBatch(s.batches[0].bN)
	}
	return s
}

// use makes it a session about that circuit and that batch size
func (s *session) use(c *Circ, bN int) {
	s.c, s.batches = c, nil
	s.addBatch(bN)
}

func (s *session) addBatch(bN int) {
	s.batches = append(s.batches, batch{bN, chunked(s.r.vec(1<<uint(bN+s.c.BG[0]), s.r.style()), s.r.batch(bN)), gkr.NewVerifier(bN, s.c.Code)})
}

// the objects every session begins with, of the first n batches
func (s *session) begin(n int) {
	for k := 0; k < n && k < len(s.batches); k++ {
		a := s.c.Code.Assign(s.batches[k].inputs, 1)
		s.addAssignment(k, a)
		s.addProof(k, s.provers[k].Prove(1))
	}
}

func (s *session) addAssignment(k int, a circuit.Assignment) {
	s.assigns, s.aof = append(s.assigns, a), append(s.aof, k)
	s.provers = append(s.provers, gkr.NewProver(s.c.Code, a))
}

func (s *session) addProof(k int, p gkr.Proof) {
	s.proofs, s.pof = append(s.proofs, p), append(s.pof, k)
}

func (s *session) note() string {
	b := s.batches[0]
	return fmt.Sprintf("%d layers, %d batches, bN=%d, %d chunks", len(s.c.Layers), len(s.batches), b.bN, len(b.inputs))
}

func (s *session) outputs(i int) [][]fr.Element { return s.assigns[i].Values[len(s.c.Layers)] }

const nbSessionOps = 12

// call makes one call, and returns what was called on what (the same for calls that have to give
// the same), and its result. Calls with grow create objects.
func (s *session) call(op int, r *R, grow bool) (what []interface{}, res interface{}) {
	cores := r.cores(2)
	ai, pi := 0, 0 // an assignment and a proof, of the same batch if there are
	if len(s.assigns) > 0 {
		ai = r.Intn(len(s.assigns))
	}
	if len(s.proofs) > 0 {
		pi = r.Intn(len(s.proofs))
		for k := 0; k < 8 && len(s.assigns) > 0 && s.pof[pi] != s.aof[ai]; k++ {
			pi = r.Intn(len(s.proofs))
		}
	}
	nl := len(s.c.Layers)
	layer := r.Intn(nl)
	k := r.Intn(len(s.batches))
	b := s.batches[k]
	switch op % nbSessionOps {
	case 0:
		a := s.c.Code.Assign(b.inputs, cores)
		if grow && len(s.assigns) < 4 {
			s.addAssignment(k, a)
		}
		return []interface{}{"assign", k}, valuesJ(a)
	case 1: // by a new prover
		p := gkr.NewProver(s.c.Code, s.assigns[ai])
		proof := p.Prove(cores)
		if grow && len(s.proofs) < 5 {
			s.addProof(s.aof[ai], proof)
		}
		return []interface{}{"prove", s.aof[ai]}, proofJ(proof)
	case 2: // by a prover that has been used already
		return []interface{}{"prove", s.aof[ai]}, proofJ(s.provers[ai].Prove(cores))
	case 3: // by a new verifier
		k = s.aof[ai]
		v := gkr.NewVerifier(s.batches[k].bN, s.c.Code)
		return []interface{}{"verify", s.pof[pi], k}, v.Verify(s.proofs[pi], s.batches[k].inputs, s.outputs(ai))
	case 4: // by a verifier that has been used already
		k = s.aof[ai]
		return []interface{}{"verify", s.pof[pi], k}, s.batches[k].ver.Verify(s.proofs[pi], s.batches[k].inputs, s.outputs(ai))
	case 5: // an altered proof
		k = s.aof[ai]
		p := cpProof(s.proofs[pi])
		l := r.Intn(nl)
		p.ClaimsLeft[l].Add(&p.ClaimsLeft[l], &s.batches[0].inputs[0][0])
		p.ClaimsLeft[l].Double(&p.ClaimsLeft[l])
		return []interface{}{"verify altered", s.pof[pi], k, l}, s.batches[k].ver.Verify(p, s.batches[k].inputs, s.outputs(ai))
	case 6: // copies are the caller's
		tabs := s.assigns[ai].LayerAsBKTWithCopy(layer, cores)
		res := [][]fr.Element{}
		for _, t := range tabs {
			res = append(res, cp1(t.Table))
		}
		for _, t := range tabs {
			if len(t.Table) > 1 {
				t.Fold(fint(int64(r.Intn(100))))
			}
			for i := range t.Table {
				t.Table[i] = fint(7)
			}
		}
		return []interface{}{"copy", s.aof[ai], layer}, fs2(res)
	case 7:
		l := s.c.Code.Layers[layer]
		return []interface{}{"evaluate", s.aof[ai], layer}, fs2(l.Evaluate(s.assigns[ai].Values[layer], cores))
	case 8:
		l := s.c.Code.Layers[layer]
		q := make([]fr.Element, l.BGOutputs)
		for i := range q {
			q[i] = fint(int64(3 + i))
		}
		res := [][]fr.Element{}
		for _, t := range l.GetStaticTable(q) {
			res = append(res, t.Table)
		}
		return []interface{}{"static", layer}, J{"tables": fs2(res), "q": Fs1(q)}
	case 9:
		q := make([]fr.Element, b.bN+s.c.BG[0])
		for i := range q {
			q[i] = fint(int64(5 + i))
		}
		x := polynomial.EvaluateChunked(polynomial.AsChunkedBookKeepingTable(b.inputs), q)
		return []interface{}{"extension", k}, J{"x": F(x), "q": Fs1(q)}
	case 10:
		bG := s.c.BG[0]
		q := make([]fr.Element, b.bN+2*bG)
		for i := range q {
			q[i] = fint(int64(2 + i))
		}
		x, y := polynomial.EvaluateMixedChunked(polynomial.AsChunkedBookKeepingTable(b.inputs), q[:b.bN], q[b.bN:b.bN+bG], q[b.bN+bG:])
		return []interface{}{"mixed extension", k}, J{"x": F(x), "y": F(y), "q": Fs1(q)}
	default: // the first sumcheck of a proof, with its claim
		qp, q := gkr.GetInitialQPrimeAndQ(s.batches[s.aof[ai]].bN, s.c.BG[nl])
		p := s.provers[ai].InitialRoundSumcheckProver(qp, q, cores)
		claim := p.GetClaim(cores)
		again := p.GetClaim(cores)
		proof, a, b, c, fin := p.Prove(cores)
		return []interface{}{"first sumcheck", s.aof[ai]}, J{"run": runJ(claim, proof, a, b, c, fin), "again": F(again)}
	}
}

func init() {
	props["C18"] = &Prop{
		Count: func(e *Env) int {
			if e.Quick {
				return len(e.Scen) + 130
			}
			return len(e.Scen) + 900
		},
		Run: runC18,
	}
	props["C18conc"] = &Prop{Count: tierCount(40, 300), Run: runC18conc}
	props["C18first"] = &Prop{Count: tierCount(16, 80), Run: runC18first}
	props["C07race"] = &Prop{Count: tierCount(50, 200), Run: runC07race}
}

// runC18 makes calls one after the other, and records all objects after each
func runC18(e *Env) {
	s := newSession(e, 3, 2, 3)
	many := 14
	if k := e.Idx - len(e.Scen); k%8 == 7 { // a deep circuit, a wide one, or a large batch
		many = 6
		switch k / 8 % 3 {
		case 0:
			c := e.R.circ(1, 1, 3, true)
			for len(c.Layers) < 100 {
				c = e.R.circ(150, 1, 2, true)
			}
			s.use(c, e.R.Intn(2))
		case 1:
			s.use(e.R.circ(2, 5, 50, true), e.R.Intn(3))
		default:
			s.use(e.R.circ(2, 1, 4, true), 5+e.R.Intn(5))
		}
	}
	s.begin(1)
	ev := []J{}
	start := s.heap()
	var ops []int
	if e.Idx < len(e.Scen) {
		ops = ints(e.Scen[e.Idx]["ops"])
	} else {
		for k := 0; k < many; k++ {
			ops = append(ops, s.r.Intn(nbSessionOps))
		}
	}
	for _, op := range ops {
		what, res := s.call(op, s.r, true)
		ev = append(ev, J{"what": what, "res": res, "heap": s.heap()})
	}
	e.Emit(J{"kind": "session", "start": start, "ev": ev,
		"note": fmt.Sprintf("%d calls one after the other, %s", len(ops), s.note())})
}

// runC18conc makes calls alone, and then the same by several users at the same time
func runC18conc(e *Env) {
	s := newSession(e, 2, 1, 3)
	s.begin(2)
	start := s.heap()
	ev := []J{}
	for op := 0; op < 2*nbSessionOps; op++ {
		what, res := s.call(op, s.r, false)
		ev = append(ev, J{"what": what, "res": res})
	}
	ev[len(ev)-1]["heap"] = s.heap()
	const users = 5
	logs := make([][]J, users)
	var wg sync.WaitGroup
	setHook(jitter(200 * time.Microsecond))
	for u := 0; u < users; u++ {
		wg.Add(1)
		go func(u int, r *R) {
			defer wg.Done()
			for k := 0; k < 6; k++ {
				op := r.Intn(nbSessionOps)
				if k == 0 {
					op = 1 + u%4
				}
				what, res := s.call(op, r, false)
				logs[u] = append(logs[u], J{"what": what, "res": res})
			}
		}(u, newR(e.Seed*1000+int64(e.Idx*users+u)))
	}
	wg.Wait()
	setHook(nil)
	for u := range logs {
		ev = append(ev, logs[u]...)
	}
	ev[len(ev)-1]["heap"] = s.heap()
	e.Emit(J{"kind": "session", "start": start, "ev": ev,
		"note": fmt.Sprintf("%d users at the same time, %s", users, s.note())})
}

// runC18first has several users make the first calls of the process at the same time, on two
// circuits; what the same calls give alone is seen afterwards. It needs a process of its own.
func runC18first(e *Env) {
	ss := []*session{newSession(e, 3, 1, 3), newSession(e, 2, 2, 2)}
	const users = 6
	logs := make([][]J, users)
	start := make(chan struct{})
	var wg sync.WaitGroup
	for u := 0; u < users; u++ {
		wg.Add(1)
		go func(u int, r *R) {
			defer wg.Done()
			// the circuit, the inputs and the verifier are those of all users; what a user makes of them is its own
			s := ss[u%2]
			own := &session{e: e, r: r, c: s.c, batches: s.batches}
			<-start
			if k := (e.Idx + u/2) % 4; k > 0 { // the others begin with an assignment
				what, res := own.call(7+k, r, false)
				logs[u] = append(logs[u], J{"what": what, "res": res})
			}
			what, res := own.call(0, r, true)
			logs[u] = append(logs[u], J{"what": what, "res": res})
			what, res = own.call(1, r, true)
			logs[u] = append(logs[u], J{"what": what, "res": res})
			for _, op := range []int{3 + r.Intn(2), 4, 5, 11} {
				what, res = own.call(op, r, false)
				logs[u] = append(logs[u], J{"what": what, "res": res})
			}
		}(u, newR(e.Seed*1000+int64(e.Idx*users+u)))
	}
	close(start)
	wg.Wait()
	for k, s := range ss {
		s.begin(2)
		ev := []J{}
		begin := s.heap()
		for op := 0; op < nbSessionOps; op++ {
			what, res := s.call(op, s.r, false)
			ev = append(ev, J{"what": what, "res": res})
		}
		for u := k; u < users; u += 2 {
			ev = append(ev, logs[u]...)
		}
		ev[len(ev)-1]["heap"] = s.heap()
		e.Emit(J{"kind": "session", "start": begin, "ev": ev,
			"note": fmt.Sprintf("the first calls of a process, by %d users at the same time, %s", users, s.note())})
	}
}

// runC07race runs the multi-threaded prover under the race detector
func runC07race(e *Env) {
	i := e.inst()
	c := J{"kind": "summt", "st": i.runSingle()}
	mts := []J{}
	setHook(jitter(100 * time.Microsecond))
	for k := 0; k <= i.BN; k++ {
		mts = append(mts, i.runMulti(1<<uint(k), 1+e.R.Intn(1<<uint(k)+2)))
	}
	setHook(nil)
	c["mt"] = mts
	c["note"] = fmt.Sprintf("race detector, bN=%d bG=%d gates=%d, %d runs", i.BN, i.BG, len(i.Gates), len(mts))
	e.Emit(c)
}
