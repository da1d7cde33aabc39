package main

import (
	"fmt"
	"sort"

	"gkr-mimc/common"
	"gkr-mimc/polynomial"

	"github.com/consensys/gurvy/bn256/fr"
)

// tabRun drives a set of named tables of the code and records every step
type tabRun struct {
	r     *R
	live  map[string]*polynomial.BookKeepingTable
	last  map[string][]fr.Element
	steps []J
	next  int
	pts   [][]fr.Element // the points used so far
}

// again is a point of n coordinates: now and then one that was used before, in the same array or another
func (t *tabRun) again(n int) []fr.Element {
	if t.r.Intn(3) == 0 {
		for _, k := range t.r.Perm(len(t.pts)) {
			if len(t.pts[k]) != n {
				continue
			}
			switch t.r.Intn(3) {
			case 0:
				return cp1(t.pts[k])
			case 1: // another point in that array
				copy(t.pts[k], t.r.like(t.pts[k]))
			}
			return t.pts[k]
		}
	}
	p := t.r.vec(n, vsMixed)
	t.pts = append(t.pts, p)
	return p
}

func newTabRun(r *R) *tabRun {
	return &tabRun{r: r, live: map[string]*polynomial.BookKeepingTable{}}
}

func (t *tabRun) name() string { t.next++; return fmt.Sprintf("t%d", t.next) }

func (t *tabRun) names() []string {
	res := []string{}
	for n := range t.live {
		res = append(res, n)
	}
	sort.Strings(res)
	return res
}

func (t *tabRun) record(op J, res []fr.Element) {
	now := map[string][]fr.Element{}
	same := t.last != nil && len(t.live) == len(t.last)
	for n, b := range t.live {
		now[n] = cp1(b.Table)
		same = same && t.last[n] != nil && eq1(now[n], t.last[n])
	}
	obs := []J{}
	if !same { // written out only when something changed
		for _, n := range t.names() {
			obs = append(obs, J{"n": n, "t": Fs1(now[n])})
		}
	}
	t.last = now
	op["obs"] = obs
	op["same"] = same
	op["res"] = Fs1(cp1(res))
	t.steps = append(t.steps, op)
}

func (t *tabRun) put(n string, b polynomial.BookKeepingTable) { t.live[n] = &b }

func (t *tabRun) doNew(v []fr.Element) string {
	n := t.name()
	t.put(n, polynomial.NewBookKeepingTable(cp1(v)))
	t.record(J{"op": "new", "d": n, "t": Fs1(cp1(v))}, nil)
	return n
}

func (t *tabRun) doEqTab(pt []fr.Element) string {
	n := t.name()
	t.put(n, polynomial.GetFoldedEqTable(pt))
	t.record(J{"op": "eqtab", "d": n, "pt": Fs1(cp1(pt))}, nil)
	return n
}

func (t *tabRun) doEqChunks(pt []fr.Element, nChunks, nCore int) []string {
	ns := []string{}
	for _, b := range polynomial.GetChunkedEqTable(pt, nChunks, nCore) {
		n := t.name()
		t.put(n, b)
		ns = append(ns, n)
	}
	t.record(J{"op": "eqchunks", "names": ns, "pt": Fs1(cp1(pt)), "cores": nCore}, nil)
	return ns
}

func (t *tabRun) doFold(a string, s fr.Element) {
	t.live[a].Fold(s)
	t.record(J{"op": "fold", "a": a, "s": F(s)}, nil)
}

func (t *tabRun) doCopy(a, d string) {
	t.put(d, t.live[a].DeepCopy())
	t.record(J{"op": "copy", "a": a, "d": d}, nil)
}

func (t *tabRun) doChunk(a, d string, k, n int) {
	t.put(d, t.live[a].InterleavedChunk(k, n))
	t.record(J{"op": "chunk", "a": a, "d": d, "k": k, "n": n}, nil)
}

// dest is a new table, or one that is overwritten
func (t *tabRun) dest(d string) *polynomial.BookKeepingTable {
	if t.live[d] == nil {
		t.live[d] = &polynomial.BookKeepingTable{}
	}
	return t.live[d]
}

func (t *tabRun) doAdd(a, b, d string) {
	t.dest(d).Add(*t.live[a], *t.live[b])
	t.record(J{"op": "add", "a": a, "b": b, "d": d}, nil)
}
func (t *tabRun) doSub(a, b, d string, cores int) {
	t.dest(d).Sub(*t.live[a], *t.live[b], cores)
	t.record(J{"op": "sub", "a": a, "b": b, "d": d, "cores": cores}, nil)
}
func (t *tabRun) doMul(a string, s fr.Element, d string, cores int) {
	t.dest(d).Mul(s, *t.live[a], cores)
	t.record(J{"op": "mul", "a": a, "s": F(s), "d": d, "cores": cores}, nil)
}
func (t *tabRun) doLinComb(a, b, d string, s, u fr.Element) {
	res := polynomial.LinearCombinationOfBookKeepingTables(*t.live[a], *t.live[b], s, u)
	delete(t.live, a)
	delete(t.live, b)
	t.put(d, res)
	t.record(J{"op": "lincomb", "a": a, "b": b, "d": d, "s": F(s), "t": F(u)}, nil)
}
func (t *tabRun) doEval(a string, pt []fr.Element) {
	x := t.live[a].Evaluate(pt)
	t.record(J{"op": "eval", "a": a, "pt": Fs1(cp1(pt))}, []fr.Element{x})
}

// shared returns copies of the points as slices of one array, in some order: what a caller may well pass
func (t *tabRun) shared(a, b, c []fr.Element) ([]fr.Element, []fr.Element, []fr.Element) {
	in := [][]fr.Element{a, b, c}
	back := make([]fr.Element, 0, len(a)+len(b)+len(c)+2)
	out := make([][]fr.Element, 3)
	for _, k := range t.r.Perm(3) {
		l := len(back)
		back = append(back, in[k]...)
		out[k] = back[l:len(back)]
	}
	return out[0], out[1], out[2]
}

func (t *tabRun) doEvalLR(a string, hP, hL, hR []fr.Element) {
	p, l, r := t.shared(hP, hL, hR)
	x, y := t.live[a].EvaluateLeftAndRight(p, l, r)
	t.record(J{"op": "evallr", "a": a, "hp": Fs1(hP), "hl": Fs1(hL), "hr": Fs1(hR)}, []fr.Element{x, y})
}
func (t *tabRun) doEvals(a string) {
	t.record(J{"op": "evals", "a": a}, t.live[a].FunctionEvals())
}
func (t *tabRun) doEvalEq(p, q []fr.Element) {
	t.record(J{"op": "evaleq", "hl": Fs1(p), "hr": Fs1(q)}, []fr.Element{polynomial.EvalEq(p, q)})
}
func (t *tabRun) chunkTables(ns []string) []polynomial.BookKeepingTable {
	res := []polynomial.BookKeepingTable{}
	for _, n := range ns {
		res = append(res, *t.live[n])
	}
	return res
}
func (t *tabRun) doEvalC(ns []string, pt []fr.Element) {
	x := polynomial.EvaluateChunked(t.chunkTables(ns), pt)
	t.record(J{"op": "evalc", "names": ns, "pt": Fs1(cp1(pt))}, []fr.Element{x})
}
func (t *tabRun) doEvalMC(ns []string, hP, hL, hR []fr.Element) {
	p, l, r := t.shared(hP, hL, hR)
	x, y := polynomial.EvaluateMixedChunked(t.chunkTables(ns), p, l, r)
	t.record(J{"op": "evalmc", "names": ns, "hp": Fs1(hP), "hl": Fs1(hL), "hr": Fs1(hR)}, []fr.Element{x, y})
}

func (t *tabRun) emit(e *Env, note string) {
	ops := map[string]int{}
	for _, s := range t.steps {
		ops[s["op"].(string)]++
	}
	e.Emit(J{"kind": "tables", "steps": t.steps, "note": fmt.Sprintf("%s %v", note, ops)})
}

func (t *tabRun) any() string { ns := t.names(); return ns[t.r.Intn(len(ns))] }

// sameSize returns a table of the size of a
func (t *tabRun) sameSize(a string) string {
	ns := []string{}
	for _, n := range t.names() {
		if len(t.live[n].Table) == len(t.live[a].Table) {
			ns = append(ns, n)
		}
	}
	return ns[t.r.Intn(len(ns))]
}

// someDest is a new name or an existing one
func (t *tabRun) someDest() string {
	if len(t.live) < 5 && t.r.Intn(2) == 0 {
		return t.name()
	}
	return t.any()
}

func (t *tabRun) size(a string) int { return len(t.live[a].Table) }

func (t *tabRun) randomStep() {
	r := t.r
	a := t.any()
	n := log2(t.size(a))
	switch k := r.Intn(15); k {
	case 0:
		if len(t.live) < 5 {
			t.doNew(r.vec(1<<uint(r.Intn(6)), r.style()))
		}
	case 1:
		if len(t.live) < 5 {
			t.doEqTab(t.again(r.Intn(6)))
		}
	case 2, 3:
		if t.size(a) > 1 {
			t.doFold(a, r.val())
		}
	case 4:
		t.doCopy(a, t.someDest())
	case 5:
		k := 1 << uint(r.Intn(n+1))
		t.doChunk(a, t.someDest(), r.Intn(k), k)
	case 6:
		t.doAdd(a, t.sameSize(a), t.someDest())
	case 7:
		t.doSub(a, t.sameSize(a), t.someDest(), 1+r.Intn(9))
	case 8:
		t.doMul(a, r.val(), t.someDest(), 1+r.Intn(9))
	case 9:
		b := t.sameSize(a)
		if a != b {
			t.doLinComb(a, b, r2(r, a, b, t.name()), r.val(), r.val())
		}
	case 10, 11:
		t.doEval(a, t.again(n))
	case 12:
		g := r.Intn(n + 1)
		hl, hr := r.pair(g, vsMixed)
		t.doEvalLR(a, r.vec(n-g, vsMixed), hl, hr)
	case 13:
		if t.size(a) > 1 {
			t.doEvals(a)
		}
	case 14:
		m := r.Intn(8)
		t.doEvalEq(r.pair(m, vsMixed))
	}
}

func r2(r *R, xs ...string) string { return xs[r.Intn(len(xs))] }

func init() {
	props["C11"] = &Prop{Count: tierCount(440, 4000), Run: runC11}
	props["C12race"] = &Prop{Count: tierCount(12, 60), Run: runC12race}
	props["C12"] = &Prop{Count: tierCount(300, 2000), Run: runC12}
}

func runC11(e *Env) {
	t := newTabRun(e.R)
	r := e.R
	switch {
	case e.Idx < 14: // one size after the other: everything about one table
		n := e.Idx / 2
		a := t.doNew(r.vec(1<<uint(n), r.pick(vsMixed, vsRandom)))
		d := t.name()
		t.doCopy(a, d)
		t.doEval(a, r.vec(n, vsMixed))
		t.doEval(d, r.vec(n, vsRandom))
		pt := r.vec(n, vsMixed)
		b := t.doEqTab(pt)
		t.doEvalEq(pt, r.vec(n, vsMixed))
		for k := 0; k < n; k++ {
			t.doFold(b, r.val())
		}
		t.doEqTab(pt) // once more, now that the first one is spoiled
		t.doEvalEq(pt, r.like(pt))
		for g := 0; g <= n; g++ {
			hl := r.vec(g, vsMixed)
			t.doEvalLR(a, r.vec(n-g, vsRandom), hl, r.vec(g, vsRandom))
			t.doEvalLR(a, r.vec(n-g, vsRandom), hl, r.like(hl))
		}
		for k := 0; k < n; k++ {
			t.doEvals(d)
			t.doFold(d, r.val())
		}
		t.doEval(a, r.vec(n, vsRandom))
		t.emit(e, fmt.Sprintf("size %d", 1<<uint(n)))
	case e.Idx < 18: // vertices: a table evaluated on the hypercube gives its entries
		n := e.Idx - 14
		a := t.doNew(r.vec(1<<uint(n), vsRandom))
		for x := 0; x < 1<<uint(n); x++ {
			pt := make([]fr.Element, n)
			for i := range pt {
				pt[i] = fint(int64(x >> uint(n-1-i) & 1))
			}
			t.doEval(a, pt)
			t.doEvalEq(pt, r.vec(n, vsMixed))
		}
		t.emit(e, "vertices")
	case e.Idx < 21: // long eq points
		n := 6 + e.Idx%3
		t.doEqTab(r.vec(n, vsMixed))
		t.doEvalEq(r.vec(40, vsRandom), r.vec(40, vsRandom))
		for k := e.Idx - 18; k < 48; k += 3 { // every length
			t.doEvalEq(r.vec(k, vsRandom), r.vec(k, r.pick(vsRandom, vsMixed)))
		}
		k := 60 + r.Intn(80)
		t.doEvalEq(r.vec(k, vsRandom), r.vec(k, vsRandom))
		t.emit(e, "eq")
	case e.Idx < 26: // large tables
		n := []int{9, 11, 13, 14, 15}[e.Idx-21]
		if !e.Quick && e.Idx == 25 {
			n = 16
		}
		a := t.doNew(r.vec(1<<uint(n), vsRandom))
		d := t.name()
		t.doCopy(a, d)
		if n >= 14 {
			t.doFold(a, r.elt())
			t.doEval(a, r.vec(n-1, vsRandom))
			t.doLinComb(d, t.doEqTab(r.vec(n, vsMixed)), t.name(), r.val(), r.val())
			t.emit(e, fmt.Sprintf("size %d", 1<<uint(n)))
			return
		}
		for k := 0; k < 3; k++ {
			t.doFold(d, r.val())
		}
		t.doEval(a, r.vec(n, vsRandom))
		t.doEval(d, r.vec(n-3, vsMixed))
		t.doEvalLR(a, r.vec(n-1, vsRandom), r.vec(1, vsMixed), r.vec(1, vsRandom))
		if n < 13 {
			t.doEqTab(r.vec(n, vsMixed))
		}
		t.emit(e, fmt.Sprintf("size %d", 1<<uint(n)))
	case e.Idx%15 == 7: // larger tables
		n := 6 + r.Intn(4)
		a, b := t.doNew(r.vec(1<<uint(n), r.style())), t.doEqTab(r.vec(n, vsMixed))
		d := t.name()
		t.doCopy(a, d)
		if r.Intn(2) == 0 {
			t.doEvals(d)
		}
		c := t.name()
		t.doLinComb(d, b, c, r.val(), r.val())
		for k := 0; k < 6; k++ {
			t.randomStep()
		}
		t.emit(e, "random, larger tables")
	default:
		t.doNew(r.vec(1<<uint(r.Intn(6)), r.style()))
		for k := 0; k < 14; k++ {
			t.randomStep()
		}
		t.emit(e, "random")
	}
}

// runC12race runs the operations that work on several ranges, under the race detector
func runC12race(e *Env) {
	r := e.R
	t := newTabRun(r)
	cores := 2 + r.Intn(7)
	n := common.MinChunkSize*(1+r.Intn(2)) + 1 + r.Intn(3)
	switch e.Idx % 4 {
	case 0:
		a := t.doNew(r.vec(n, vsRandom))
		t.doMul(a, r.elt(), t.name(), cores)
		t.doMul(a, r.elt(), a, cores)
	case 1:
		a, b := t.doNew(r.vec(n, vsRandom)), t.doNew(r.vec(n, vsRandom))
		t.doSub(a, b, t.name(), cores)
		t.doSub(a, b, a, cores)
	case 2:
		t.doEqChunks(r.vec(14, vsRandom), 1<<uint(r.Intn(2)), cores)
	default:
		k := 1 + r.Intn(4)
		ns := t.doEqChunks(r.vec(k+2, vsRandom), 1<<uint(k), cores)
		t.doEvalC(ns, r.vec(k+2, vsRandom))
	}
	t.emit(e, fmt.Sprintf("race detector, n=%d cores=%d", n, cores))
}

func runC12(e *Env) {
	r := e.R
	t := newTabRun(r)
	// size, cores, operation: more ranges than cores, as many, fewer
	big := [][3]int{{8193, 2, 0}, {8193, 2, 1}, {12289, 3, 0}, {8192, 8, 1}, {4097, 1, 1}, {4097, 3, 2}, {12289, 4, 2}}
	if !e.Quick {
		big = append(big, [3]int{16384, 3, 1}, [3]int{16384, 3, 0}, [3]int{32768, 5, 2}, [3]int{20000, 2, 0}, [3]int{4095, 7, 1}, [3]int{65536, 6, 0}, [3]int{32768, 7, 1})
	}
	switch {
	case e.Idx < len(big): // tables worked on in several ranges
		n, cores := big[e.Idx][0], big[e.Idx][1]
		a := t.doNew(r.vec(n, vsRandom))
		switch big[e.Idx][2] {
		case 0:
			t.doMul(a, r.elt(), t.name(), cores)
			t.doMul(a, r.elt(), a, cores)
		case 1:
			b := t.doNew(r.vec(n, vsRandom))
			t.doSub(a, b, a, cores)
		case 2:
			b := t.doNew(r.vec(n, vsRandom))
			t.doSub(a, b, b, cores)
			t.doAdd(a, b, b)
		}
		t.emit(e, fmt.Sprintf("large n=%d cores=%d", n, cores))
	case e.Idx < 20: // eq tables worked on in several ranges
		switch {
		case e.Idx < 18:
			k := e.Idx % 4
			t.doEqChunks(r.vec(3+k, vsMixed), 1<<uint(k), r.cores(3))
		case e.Idx == 18:
			t.doEqChunks(r.vec(14, vsRandom), 2, 3)
		case !e.Quick:
			t.doEqChunks(r.vec(15, vsRandom), 4, 5)
		}
		if e.Idx == 19 && e.Quick {
			t.doEqChunks(r.vec(5, vsMixed), 4, 7)
		}
		t.emit(e, "eq chunks")
	case e.Idx >= 40 && e.Idx < 56: // the operations of any size, into tables of any size
		n := r.pick(1+r.Intn(20), 1+r.Intn(20), 20+r.Intn(80), 300+r.Intn(300))
		a, b := t.doNew(r.vec(n, r.style())), t.doNew(r.vec(n, r.style()))
		for k := 0; k < 6; k++ {
			d := t.name()
			if r.Intn(3) != 0 {
				d = t.doNew(r.vec(r.pick(n, 1+r.Intn(n), 1+r.Intn(2*n)), vsRandom))
			}
			x, y := a, b
			switch r.Intn(6) {
			case 0:
				y = a
			case 1:
				x, y = b, a
			case 2:
				d = a
			}
			switch (k + e.Idx) % 3 {
			case 0:
				t.doMul(x, r.val(), d, r.cores(3))
			case 1:
				t.doSub(x, y, d, r.cores(3))
			case 2:
				t.doAdd(x, y, d)
			}
		}
		t.emit(e, fmt.Sprintf("any size n=%d", n))
	case e.Idx < 40:
		runs := []J{}
		for k := 0; k < 40; k++ {
			n, c := r.Intn(5000), 1+r.Intn(12)
			switch r.Intn(4) {
			case 0:
				n = common.MinChunkSize*r.Intn(12) + r.Intn(5) - 2
			case 1:
				n = r.Intn(200000)
			case 2:
				c = r.pick(1+r.Intn(300), 1+r.Intn(300), r.manyCores())
				n = r.Intn(2000000)
			}
			if n < 0 {
				n = 0
			}
			rs := []J{}
			for _, x := range common.IntoChunkRanges(c, n) {
				rs = append(rs, J{"b": x.Begin, "e": x.End})
			}
			runs = append(runs, J{"n": n, "cores": c, "ranges": rs})
		}
		e.Emit(J{"kind": "ranges", "runs": runs, "note": "40 divisions"})
	default:
		// a plain table, its chunks, and every operation on both
		n := r.Intn(8)
		if e.Idx%20 == 11 {
			n = 8 + r.Intn(4)
		}
		k := r.Intn(n + 1)
		switch e.Idx % 8 {
		case 0:
			k = 0
		case 1:
			k = n
		}
		if n >= 8 && k > 5 {
			k = 5
		}
		nChunks := 1 << uint(k)
		cores := r.cores(nChunks)
		a := t.doNew(r.vec(1<<uint(n), r.style()))
		ns := []string{}
		var eqPt []fr.Element
		if e.Idx%3 == 0 {
			delete(t.live, a)
			t.steps, t.last = nil, nil
			eqPt = r.vec(n, vsMixed)
			ns = t.doEqChunks(eqPt, nChunks, cores)
		} else {
			for i := 0; i < nChunks; i++ {
				ns = append(ns, t.name())
				t.doChunk(a, ns[i], i, nChunks)
			}
		}
		t.doEvalC(ns, r.vec(n, vsMixed))
		t.doEvalC(ns, r.vec(n, vsRandom))
		// chunks on h', the last variables
		g := r.Intn(n - k + 1)
		hl, hr := r.pair(g, vsMixed)
		t.doEvalMC(ns, r.vec(n-g, vsMixed), hl, hr)
		t.doEvalMC(ns, r.vec(n-g, vsRandom), r.vec(g, vsRandom), r.vec(g, vsRandom))
		if n-k > 0 {
			s := r.val()
			for _, x := range ns {
				t.doFold(x, s)
			}
			t.doEvalC(ns, r.vec(n-1, vsRandom))
		}
		if eqPt != nil && n < 9 { // the same tables once more
			t.doEqChunks(eqPt, nChunks, cores)
			k := r.Intn(k + 1)
			t.doEqChunks(eqPt, 1<<uint(k), cores)
		}
		if e.Idx%3 != 0 {
			t.doEval(a, r.vec(n, vsMixed))
		}
		t.emit(e, fmt.Sprintf("n=%d chunks=%d cores=%d", n, nChunks, cores))
	}
}
