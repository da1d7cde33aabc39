package main

import (
	"fmt"
	"time"

	"gkr-mimc/circuit"
	"gkr-mimc/common"
	"gkr-mimc/polynomial"
	"gkr-mimc/sumcheck"

	"github.com/consensys/gurvy/bn256/fr"
)

// Inst is a sumcheck instance, for both sides
type Inst struct {
	BN, BG int
	VL, VR []fr.Element
	Eq     []fr.Element
	Gates  []G
	St     [][]fr.Element
}

func (i *Inst) desc() J {
	gs := make([]J, len(i.Gates))
	for k := range gs {
		gs[k] = i.Gates[k].Desc
	}
	return J{"vL": Fs1(i.VL), "vR": Fs1(i.VR), "eq": Fs1(i.Eq), "gates": gs, "st": fs2(i.St)}
}

func (i *Inst) codeGates() []circuit.Gate {
	res := make([]circuit.Gate, len(i.Gates))
	for k := range res {
		res[k] = i.Gates[k].Code
	}
	return res
}

func bkt(t []fr.Element) polynomial.BookKeepingTable { return polynomial.NewBookKeepingTable(cp1(t)) }
func bkts(t [][]fr.Element) []polynomial.BookKeepingTable {
	res := make([]polynomial.BookKeepingTable, len(t))
	for i := range t {
		res[i] = bkt(t[i])
	}
	return res
}

func (i *Inst) single() sumcheck.SingleThreadedProver {
	return sumcheck.NewSingleThreadedProver(bkt(i.VL), bkt(i.VR), bkt(i.Eq), i.codeGates(), bkts(i.St))
}
func (i *Inst) multi(nChunks int) sumcheck.MultiThreadedProver {
	return sumcheck.NewMultiThreadedProver(bkts(chunked(i.VL, nChunks)), bkts(chunked(i.VR, nChunks)),
		bkts(chunked(i.Eq, nChunks)), i.codeGates(), bkts(i.St))
}

func runJ(claim fr.Element, p sumcheck.Proof, qP, qL, qR, fin []fr.Element) J {
	return J{"claim": F(claim), "polys": fs2(p.PolyCoeffs), "qP": Fs1(qP), "qL": Fs1(qL), "qR": Fs1(qR), "fin": Fs1(fin)}
}

func (i *Inst) runSingle() J {
	p := i.single()
	claim := p.GetClaim()
	proof, qP, qL, qR, fin := p.Prove()
	return runJ(claim, proof, qP, qL, qR, fin)
}

func (i *Inst) runMulti(nChunks, nCore int) J {
	p := i.multi(nChunks)
	claim := p.GetClaim(nCore)
	proof, qP, qL, qR, fin := p.Prove(nCore)
	return runJ(claim, proof, qP, qL, qR, fin)
}

// inst returns a random instance
func (r *R) inst(bN, bG, maxGates int) *Inst {
	n, g := 1<<uint(bN), 1<<uint(bG)
	i := &Inst{BN: bN, BG: bG}
	st := r.style()
	i.VL = r.vec(n*g, st)
	if r.Intn(3) == 0 {
		i.VR = cp1(i.VL) // what GKR does
	} else if r.Intn(4) == 0 {
		i.VR = r.like(i.VL)
	} else {
		i.VR = r.vec(n*g, r.style())
	}
	switch r.Intn(4) {
	case 0:
		i.Eq = r.vec(n, r.style())
	default:
		i.Eq = polynomial.GetFoldedEqTable(r.vec(bN, vsMixed)).Table
	}
	ng := 1 + r.Intn(maxGates)
	if bN+2*bG <= 4 && r.Intn(10) == 0 { // many gates
		ng = 4 + r.Intn(9)
	}
	for k := 0; k < ng; k++ {
		i.Gates = append(i.Gates, r.gate(true))
		if k > 0 && r.Intn(4) == 0 {
			i.St = append(i.St, r.like(i.St[r.Intn(k)]))
			continue
		}
		i.St = append(i.St, r.vec(g*g, r.pick(vsMixed, vsRandom, vsSparse, vsSparse, vsZero, vsSmall, vsWires, vsWires, vsPeriodic, vsPeriodic)))
	}
	return i
}

func shapes(quick bool) [][2]int {
	s := [][2]int{{0, 0}, {1, 0}, {0, 1}, {1, 1}, {2, 0}, {3, 1}, {2, 2}, {0, 2}, {3, 0}, {1, 2}, {2, 1}, {4, 1}, {5, 0}}
	if !quick {
		s = append(s, [2]int{3, 2}, [2]int{4, 2}, [2]int{2, 3}, [2]int{6, 1}, [2]int{7, 0}, [2]int{0, 3})
	}
	return s
}

// stepwise runs the exported steps of the single-threaded prover with challenges of our own
func (i *Inst) stepwise(r *R) J {
	p := i.single()
	claim := p.GetClaim()
	var polys [][]fr.Element
	qL, qR, qP := []fr.Element{}, []fr.Element{}, []fr.Element{}
	for k := 0; k < i.BG; k++ {
		polys = append(polys, polynomial.InterpolateOnRange(p.GetEvalsOnHL()))
		x := r.val()
		p.FoldHL(x)
		qL = append(qL, x)
	}
	for k := 0; k < i.BG; k++ {
		polys = append(polys, polynomial.InterpolateOnRange(p.GetEvalsOnHR()))
		x := r.val()
		p.FoldHR(x)
		qR = append(qR, x)
	}
	for k := 0; k < i.BN; k++ {
		polys = append(polys, polynomial.InterpolateOnRange(p.GetEvalsOnHPrime()))
		x := r.val()
		p.FoldHPrime(x)
		qP = append(qP, x)
	}
	// the remaining prover has no variable left: its claims are the bound tables
	_, _, _, _, fin := p.Prove()
	return runJ(claim, sumcheck.Proof{PolyCoeffs: polys}, qP, qL, qR, fin)
}

func init() {
	props["C08"] = &Prop{Count: tierCount(500, 6000), Run: runC08}
	props["C09"] = &Prop{Count: tierCount(1200+14, 12000+10*14), Run: runC09}
	props["C07"] = &Prop{
		Count: func(e *Env) int {
			if e.Quick {
				return len(e.Scen) + 350
			}
			return len(e.Scen) + 2400
		},
		Run: runC07,
	}
}

func (e *Env) inst() *Inst {
	sh := shapes(e.Quick)
	s := sh[e.Idx%len(sh)]
	if e.Idx%70 == 33 {
		s = [][2]int{{6, 0}, {6, 1}, {7, 0}, {8, 0}, {3, 2}, {1, 3}, {0, 4}, {1, 4}}[e.R.Intn(8)]
	}
	mg := 3
	if s[0]+2*s[1] >= 6 {
		mg = 2
	}
	return e.R.inst(s[0], s[1], mg)
}

// large makes an instance as large as those for which the library divides tables into ranges
func (e *Env) large() *Inst {
	s := [][2]int{{12, 0}, {13, 0}, {14, 0}, {12, 1}, {10, 1}, {9, 2}}[e.R.Intn(6)]
	return e.R.inst(s[0], s[1], 2)
}

func runC08(e *Env) {
	i := e.inst()
	if e.Idx%250 == 111 {
		i = e.large()
	}
	if e.Idx%29 == 7 { // a gate list may repeat a gate, or be empty when there is nothing to fold
		i.Gates, i.St = append(i.Gates, i.Gates[0]), append(i.St, e.R.vec(len(i.St[0]), vsRandom))
	}
	var run J
	note := ""
	switch e.Idx % 4 {
	case 0, 1:
		run = i.runSingle()
		note = "Prove"
	case 2:
		run = i.stepwise(e.R)
		note = "steps"
	case 3:
		k := 1 << uint(e.R.Intn(i.BN+1))
		run = i.runMulti(k, 1+e.R.Intn(4))
		note = fmt.Sprintf("multi-threaded, %d chunks", k)
	}
	run["kind"] = "sumprove"
	run["inst"] = i.desc()
	run["note"] = fmt.Sprintf("%s bN=%d bG=%d gates=%d", note, i.BN, i.BG, len(i.Gates))
	e.Emit(run)
}

// fixPoly changes one coefficient so that the polynomial's values at 0 and 1 sum to claim
func fixPoly(cs []fr.Element, claim fr.Element, r *R) {
	var s fr.Element
	for i := range cs {
		s.Add(&s, &cs[i])
		if i == 0 {
			s.Add(&s, &cs[i])
		}
	}
	var d fr.Element
	d.Sub(&claim, &s)
	k := r.Intn(len(cs))
	if k == 0 {
		two := fint(2)
		two.Inverse(&two)
		d.Mul(&d, &two)
	}
	cs[k].Add(&cs[k], &d)
}

// transcript is a claim and round polynomials
type transcript struct {
	claim fr.Element
	polys [][]fr.Element
	note  string
}

// transcript builds a consistent transcript from scratch, then breaks it in one place if how is not 0.
// lens are the numbers of coefficients for the three kinds of rounds; 0 means any.
func (r *R) transcript(bN, bG int, lens [3]int, how int) transcript {
	n := 2*bG + bN
	claim := r.val()
	polys := make([][]fr.Element, n)
	cur := claim
	for i := range polys {
		k := lens[2]
		if i < bG {
			k = lens[0]
		} else if i < 2*bG {
			k = lens[1]
		}
		if k == 0 {
			k = 1 + r.Intn(10)
		}
		polys[i] = r.vec(k, r.pick(vsMixed, vsRandom, vsZero, vsSparse))
		fixPoly(polys[i], cur, r)
		cur = evalPoly(polys[i], common.GetChallenge(polys[i]))
	}
	note := "consistent"
	if n == 0 {
		how = 0
	}
	if 0 < how && how < 5 && n > 0 {
		k := r.Intn(n)
		if r.Intn(3) == 0 {
			k = n - 1
		}
		delta := r.val()
		if delta.IsZero() {
			delta = fint(1)
		}
		switch how {
		case 1: // round k alone is wrong: later rounds are made consistent again
			note = fmt.Sprintf("round %d of %d wrong", k+1, n)
			j := r.Intn(len(polys[k]))
			polys[k][j].Add(&polys[k][j], &delta)
			cur = evalPoly(polys[k], common.GetChallenge(polys[k]))
			for i := k + 1; i < n; i++ {
				fixPoly(polys[i], cur, r)
				cur = evalPoly(polys[i], common.GetChallenge(polys[i]))
			}
		case 2: // P(0)+P(1) kept, the rest changes: every check holds up to k, round k+1 fails
			note = fmt.Sprintf("round %d of %d kept in sum", k+1, n)
			if len(polys[k]) >= 3 {
				polys[k][1].Add(&polys[k][1], &delta)
				polys[k][2].Sub(&polys[k][2], &delta)
			}
		case 3:
			note = "claim wrong"
			claim.Add(&claim, &delta)
		case 4: // P(1), P(0) or 2P(0) equals the claim instead of P(0)+P(1)
			note = fmt.Sprintf("round %d of %d sums to something else", k+1, n)
			var prev fr.Element = claim
			if k > 0 {
				prev = evalPoly(polys[k-1], common.GetChallenge(polys[k-1]))
			}
			switch r.Intn(3) {
			case 0:
				polys[k][0] = prev
			case 1:
				var s fr.Element
				for i := 1; i < len(polys[k]); i++ {
					s.Add(&s, &polys[k][i])
				}
				polys[k][0].Sub(&prev, &s)
			case 2:
				polys[k][0].Double(&prev)
				polys[k][0].Neg(&polys[k][0])
			}
			cur = evalPoly(polys[k], common.GetChallenge(polys[k]))
			for i := k + 1; i < n; i++ {
				fixPoly(polys[i], cur, r)
				cur = evalPoly(polys[i], common.GetChallenge(polys[i]))
			}
		}
	}
	if how == 5 && n > 1 { // two rounds are wrong, by differences that cancel
		k := r.Intn(n - 1)
		m := k + 1 + r.Intn(n-1-k)
		delta := r.gap()
		note = fmt.Sprintf("rounds %d and %d of %d wrong by opposite differences", k+1, m+1, n)
		cur = claim
		for i := range polys {
			want := cur
			if i == k {
				want.Add(&want, &delta)
			} else if i == m {
				want.Sub(&want, &delta)
			}
			fixPoly(polys[i], want, r)
			cur = evalPoly(polys[i], common.GetChallenge(polys[i]))
		}
	}
	if how == 7 && n > 0 { // one round sums to something a verifier might take for the right value
		return r.sumsTo(bN, bG, lens, r.Intn(n), 1+r.Intn(turns+3))
	}
	if how == 6 && n > 1 { // two messages exchanged, or one sent twice
		k := r.Intn(n - 1)
		m := k + 1 + r.Intn(n-1-k)
		note = fmt.Sprintf("rounds %d and %d of %d exchanged", k+1, m+1, n)
		polys[k], polys[m] = polys[m], polys[k]
		if r.Intn(2) == 0 {
			note = fmt.Sprintf("round %d of %d again as round %d", k+1, n, m+1)
			polys[k] = cp1(polys[m])
		}
	}
	return transcript{claim, polys, note}
}

// sumsTo builds a transcript of which round k alone is wrong: it sums to something a verifier might take for the right
// value
func (r *R) sumsTo(bN, bG int, lens [3]int, k, which int) transcript {
	t := r.transcript(bN, bG, lens, 0)
	n := len(t.polys)
	cur, before := t.claim, t.claim
	for i := range t.polys {
		want := cur
		if i == k {
			switch which {
			case turns + 1: // the claim
				want = t.claim
			case turns + 2: // what the round before had to sum to
				want = before
			case turns + 3: // what the round before evaluates to elsewhere
				if i > 0 {
					want = evalPoly(t.polys[i-1], fint(1))
				}
			default:
				want = astray(cur, which, fint(1))
			}
			if want == cur {
				want = astray(cur, 0, fint(1))
			}
		}
		if i >= k {
			fixPoly(t.polys[i], want, r)
			if want.IsZero() && r.Intn(2) == 0 {
				t.polys[i] = make([]fr.Element, len(t.polys[i]))
			}
		}
		before = cur
		cur = evalPoly(t.polys[i], common.GetChallenge(t.polys[i]))
	}
	t.note = fmt.Sprintf("round %d of %d sums to another value (%d)", k+1, n, which)
	return t
}

// sumShapes are the sumchecks of which each round in turn sums to each of the values of sumsTo
var sumShapes = [][2]int{{2, 1}, {3, 0}, {0, 2}, {1, 1}}

// wrongRounds is one of sumShapes, with one such round for each value
func (e *Env) wrongRounds(idx int) {
	for _, s := range sumShapes {
		bN, bG := s[0], s[1]
		if idx < 2*bG+bN {
			for which := 1; which <= turns+3; which++ {
				e.verifierCase(bN, bG, e.R.sumsTo(bN, bG, [3]int{}, idx, which))
			}
			return
		}
		idx -= 2*bG + bN
	}
}

func runC09(e *Env) {
	r := e.R
	if first := 1200; e.Quick && e.Idx >= first {
		e.wrongRounds(e.Idx - first)
		return
	} else if first = 12000; e.Idx >= first {
		e.wrongRounds((e.Idx - first) % 14)
		return
	}
	bG, bN := r.Intn(4), r.Intn(5)
	if e.Idx%11 == 0 {
		bG = 0
	}
	if e.Idx%13 == 0 {
		bN = 0
	}
	if e.Idx%40 == 17 { // as many rounds as large batches have
		bN = 5 + r.Intn(24)
	}
	if e.Idx%40 == 31 {
		bG = 4 + r.Intn(12)
	}
	if e.Idx%80 == 47 {
		bG = 28 + r.Intn(20)
	}
	if e.Idx%80 == 63 {
		bN = 50 + r.Intn(40)
	}
	var lens [3]int
	if r.Intn(2) == 0 {
		d := 1 + r.Intn(10)
		if e.Idx%30 == 3 && bN+bG < 5 {
			d = r.pick(16, 17, 31, 32, 33, 11+r.Intn(60))
		}
		lens = [3]int{d, d, d}
	}
	e.verifierCase(bN, bG, r.transcript(bN, bG, lens, e.Idx%8))
}

// verifierCase records what the sumcheck verifier says about a transcript
func (e *Env) verifierCase(bN, bG int, t transcript) {
	chal := make([]fr.Element, len(t.polys))
	for i := range chal {
		chal[i] = common.GetChallenge(t.polys[i])
	}
	polys := cp2(t.polys)
	if e.R.Intn(3) == 0 { // the arrays held another transcript before
		var lens [3]int
		was := e.R.transcript(bN, bG, lens, 0)
		for i := range polys {
			was.polys[i] = e.R.vec(len(polys[i]), vsRandom)
			fixPoly(was.polys[i], was.claim, e.R)
			if i > 0 {
				fixPoly(was.polys[i], evalPoly(was.polys[i-1], common.GetChallenge(was.polys[i-1])), e.R)
			}
		}
		pour(polys, was.polys)
		sumcheck.Verifier{}.Verify(was.claim, sumcheck.Proof{PolyCoeffs: polys}, bN, bG)
		pour(polys, t.polys)
	}
	ok, qP, qL, qR, last := sumcheck.Verifier{}.Verify(t.claim, sumcheck.Proof{PolyCoeffs: polys}, bN, bG)
	e.Emit(J{"kind": "sumverify", "claim": F(t.claim), "polys": fs2(t.polys), "chal": Fs1(chal), "bn": bN, "bg": bG,
		"verdict": ok, "qP": Fs1(qP), "qL": Fs1(qL), "qR": Fs1(qR), "last": F(last),
		"note": fmt.Sprintf("%s bN=%d bG=%d", t.note, bN, bG)})
}

func runC07(e *Env) {
	if e.Idx < len(e.Scen) {
		e.scheduledProver()
		return
	}
	i := e.inst()
	if e.Idx%50 == 37 {
		i = e.large()
	}
	c := J{"kind": "summt", "st": i.runSingle()}
	mts := []J{}
	for k := 0; k <= i.BN; k++ {
		n := 1 << uint(k)
		if i.BN > 8 && k%3 != e.Idx%3 && k > 1 && k < i.BN {
			continue
		}
		for _, cores := range []int{1, 2, n, n + 3, e.R.cores(n)} {
			if i.BN > 8 && cores == 1 && n > 1 {
				continue
			}
			if e.Quick && i.BN >= 4 && cores == 2 {
				continue
			}
			if e.Idx%2 == 1 {
				setHook(jitter(60 * time.Microsecond))
			}
			mts = append(mts, i.runMulti(n, cores))
			setHook(nil)
		}
	}
	c["mt"] = mts
	c["note"] = fmt.Sprintf("bN=%d bG=%d gates=%d, %d runs", i.BN, i.BG, len(i.Gates), len(mts))
	e.Emit(c)
}

// scheduledProver imposes a schedule of the specification on the prover
func (e *Env) scheduledProver() {
	s := e.Scen[e.Idx]
	chunks, cores, bursts := int(s["chunks"].(float64)), int(s["cores"].(float64)), int(s["bursts"].(float64))
	bG := 0
	if bursts >= 3 && e.R.Intn(2) == 0 {
		bG = 1
	}
	i := e.R.inst(log2(chunks)+bursts-1-2*bG, bG, 2)
	t := newTurnstile(ints(s["sched"]))
	setHook(t.hook)
	p := i.multi(chunks)
	proof, qP, qL, qR, fin := p.Prove(cores)
	setHook(nil)
	q := i.multi(chunks)
	e.Emit(J{"kind": "summt", "st": i.runSingle(), "mt": []J{runJ(q.GetClaim(cores), proof, qP, qL, qR, fin)},
		"note": fmt.Sprintf("schedule, %d chunks, %d cores, %d steps followed, %d not", chunks, cores, t.followed, t.missed)})
}
