package main

import (
	"bytes"
	"fmt"
	"math/rand/v2"
	"runtime"
	"strconv"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
	"unsafe"

	"gkr-mimc/circuit"
	"gkr-mimc/common"
	"gkr-mimc/gkr"
	"gkr-mimc/sumcheck"

	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gurvy/bn256/fr"
)

// goid identifies the calling process
func goid() int {
	var buf [64]byte
	b := buf[:runtime.Stack(buf[:], false)]
	b = bytes.TrimPrefix(b, []byte("goroutine "))
	if i := bytes.IndexByte(b, ' '); i > 0 {
		n, _ := strconv.Atoi(string(b[:i]))
		return n
	}
	return -1
}

// recorder logs who computes when. Nothing in it decides anything.
type recorder struct {
	mu     sync.Mutex
	cond   *sync.Cond
	ids    map[int]int
	inside int
	cores  int
	rnd    uint64
	budget time.Duration // how long in total workers are held inside, to give others a chance to join them
	hold   time.Duration
	ev     [][2]int
	joint  int // largest number of workers inside
}

func newRecorder(cores int, budget, hold time.Duration) *recorder {
	r := &recorder{ids: map[int]int{}, cores: cores, budget: budget, hold: hold, rnd: uint64(cores)}
	r.cond = sync.NewCond(&r.mu)
	return r
}

func (r *recorder) enter() {
	g := goid()
	r.mu.Lock()
	w, ok := r.ids[g]
	if !ok {
		w = len(r.ids) + 1
		r.ids[g] = w
	}
	r.inside++
	if r.inside > r.joint {
		r.joint = r.inside
	}
	r.ev = append(r.ev, [2]int{1, w})
	r.rnd = r.rnd*6364136223846793005 + 1442695040888963407
	// while there is somebody who could be inside as well
	wait := r.budget > 0 && r.inside <= r.cores && (!ok || (r.rnd>>33)%5 == 0)
	if wait {
		r.budget -= r.hold
	}
	r.mu.Unlock()
	if wait {
		// one more than allowed may come
		end := time.Now().Add(r.hold)
		for time.Now().Before(end) {
			r.mu.Lock()
			over := r.inside > r.cores
			r.mu.Unlock()
			if over {
				break
			}
			time.Sleep(50 * time.Microsecond)
		}
	}
}

func (r *recorder) leave() {
	g := goid()
	r.mu.Lock()
	r.inside--
	r.ev = append(r.ev, [2]int{2, r.ids[g]})
	r.mu.Unlock()
}

func (r *recorder) returned() {
	r.mu.Lock()
	r.ev = append(r.ev, [2]int{3, 0})
	r.mu.Unlock()
}

// probeGate is a gate that reports when it is being computed
type probeGate struct {
	G   circuit.Gate
	rec *recorder
}

func (p *probeGate) ID() string { return "probe-" + p.G.ID() }
func (p *probeGate) Eval(res, vL, vR *fr.Element) {
	p.rec.enter()
	p.G.Eval(res, vL, vR)
	p.rec.leave()
}
func (p *probeGate) EvalManyVL(res, vLs []fr.Element, vR *fr.Element) {
	p.rec.enter()
	p.G.EvalManyVL(res, vLs, vR)
	p.rec.leave()
}
func (p *probeGate) EvalManyVR(res []fr.Element, vL *fr.Element, vRs []fr.Element) {
	p.rec.enter()
	p.G.EvalManyVR(res, vL, vRs)
	p.rec.leave()
}
func (p *probeGate) GnarkEval(cs *frontend.ConstraintSystem, vL, vR frontend.Variable) frontend.Variable {
	return p.G.GnarkEval(cs, vL, vR)
}
func (p *probeGate) Degrees() (int, int, int) { return p.G.Degrees() }

// probed returns a gate with the same meaning that reports to rec
func (g G) probed(rec *recorder) G { return G{&probeGate{g.Code, rec}, g.Desc} }

// leftBehind waits for the processes of a call to end, and says how many did not
func leftBehind(before int) int {
	end := time.Now().Add(8 * time.Second)
	for {
		n := runtime.NumGoroutine() - before
		if n <= 0 {
			return 0
		}
		if time.Now().After(end) {
			return n
		}
		time.Sleep(200 * time.Microsecond)
	}
}

// ---- schedules ----

// turnstile makes workers cross the points where they take (w) and give back (-w) a core in a
// given order, as far as they come: nobody is held for longer than patience
type turnstile struct {
	mu       sync.Mutex
	sched    []int
	pos      int
	ids      map[int]int
	patience time.Duration
	followed int
	missed   int
}

func newTurnstile(sched []int) *turnstile {
	return &turnstile{sched: sched, ids: map[int]int{}, patience: 4 * time.Millisecond}
}

func (t *turnstile) hook(point string) {
	sign := 0
	switch point {
	case "acquired":
		sign = 1
	case "release":
		sign = -1
	default:
		return
	}
	g := goid()
	t.mu.Lock()
	w, ok := t.ids[g]
	if !ok {
		w = len(t.ids) + 1
		t.ids[g] = w
	}
	t.mu.Unlock()
	end := time.Now().Add(t.patience)
	for {
		t.mu.Lock()
		if t.pos >= len(t.sched) {
			t.mu.Unlock()
			return
		}
		if t.sched[t.pos] == sign*w {
			t.pos++
			t.followed++
			t.mu.Unlock()
			return
		}
		if time.Now().After(end) {
			// the step is taken out of turn
			for i := t.pos; i < len(t.sched); i++ {
				if t.sched[i] == sign*w {
					t.sched = append(t.sched[:i:i], t.sched[i+1:]...)
					break
				}
			}
			t.missed++
			t.mu.Unlock()
			return
		}
		t.mu.Unlock()
		time.Sleep(20 * time.Microsecond)
	}
}

// jitter returns a hook that delays workers at random points. It takes no lock: a lock would
// order what the race detector is to find unordered.
func jitter(max time.Duration) func(string) {
	return func(point string) {
		switch rand.IntN(4) {
		case 0:
			time.Sleep(time.Duration(rand.Int64N(int64(max))))
		case 1:
			runtime.Gosched()
		}
	}
}

var hook atomic.Value

func init() {
	hook.Store(func(string) {})
	common.SchedHook = func(point string) { hook.Load().(func(string))(point) }
}

func setHook(f func(string)) {
	if f == nil {
		f = func(string) {}
	}
	hook.Store(f)
}

// withHook runs f while workers pass through hook
func withHook(hook func(string), f func()) {
	setHook(hook)
	f()
}

func ints(x interface{}) []int {
	var res []int
	for _, y := range x.([]interface{}) {
		res = append(res, int(y.(float64)))
	}
	return res
}

func init() {
	props["C19"] = &Prop{
		Count: func(e *Env) int {
			n := len(e.Scen)
			if e.Quick {
				return n + 170 + poolGrid
			}
			return n + 1800 + 8*poolGrid
		},
		Run: runC19,
	}
}

func (e *Env) emitPool(what string, rec *recorder, chunks, left int, note string) {
	e.Emit(J{"kind": "pool", "cores": rec.cores, "chunks": chunks, "ev": rec.ev, "left": left,
		"note": fmt.Sprintf("%s, %d chunks, %d cores, at most %d at once, %s", what, chunks, rec.cores, rec.joint, note)})
}

func runC19(e *Env) {
	r := e.R
	if e.Idx < len(e.Scen) { // a schedule of the specification, imposed on the prover or on an evaluation
		s := e.Scen[e.Idx]
		chunks, cores, bursts := int(s["chunks"].(float64)), int(s["cores"].(float64)), int(s["bursts"].(float64))
		t := newTurnstile(ints(s["sched"]))
		if e.Idx%5 == 4 {
			e.poolEvaluate(chunks, cores, t.hook, func() string { return fmt.Sprintf("schedule, %d followed, %d missed", t.followed, t.missed) })
			return
		}
		bG := 0
		if bursts >= 3 && r.Intn(2) == 0 {
			bG = 1
		}
		e.poolProve(log2(chunks)+bursts-1-2*bG, bG, chunks, cores, t.hook,
			func() string { return fmt.Sprintf("schedule, %d followed, %d missed", t.followed, t.missed) })
		return
	}
	k := e.Idx - len(e.Scen)
	if n := 170; e.Quick && k >= n || k >= 1800 {
		if !e.Quick {
			n = 1800
		}
		e.poolShape((k - n) % poolGrid)
		return
	}
	logc := r.Intn(5)
	if m := k % 24; m == 8 || m == 10 || m == 12 || m == 3 { // as many chunks as large machines need
		logc = 5 + r.Intn(2)
	}
	chunks := 1 << uint(logc)
	cores := []int{1, 2, 3, chunks - 1, chunks, chunks + 1, chunks + 5, 1 + r.Intn(20), 1 + r.Intn(chunks), 2, 4}[k%11]
	if k%17 == 5 {
		cores = r.manyCores()
	}
	if cores < 1 {
		cores = 1
	}
	any := chunks // what does not have to be a power of two
	if k%3 != 0 {
		any -= r.Intn(1 + chunks/2)
	}
	hook := jitter(300 * time.Microsecond)
	desc := func() string { return "random delays" }
	switch k % 8 {
	case 0, 1:
		e.poolEvaluate(any, cores, hook, desc)
	case 2:
		e.poolProve(logc+r.Intn(3), r.Intn(3), chunks, cores, hook, desc)
	case 3:
		e.poolClaim(logc+r.Intn(3), r.Intn(3), chunks, cores, hook, desc)
	case 4:
		e.poolCopy(any, cores, hook)
	case 5:
		for _, cores := range []int{1, 2, cores%5 + 1} {
			e.poolPages(2+r.Intn(12), cores)
		}
	case 6:
		if k/8%3 == 0 {
			e.poolStress(r)
		} else {
			e.poolGkr(1<<uint(logc%5), cores, hook, desc)
		}
	case 7:
		e.poolFold(1<<uint(1+r.Intn(4)), 1+(k/8)%6, r.Intn(2))
	}
}

// poolGrid is the number of shapes of poolShape
const poolGrid = 3 * 3 * 2 * 2

// poolShape runs the claim, the prover or an evaluation on more chunks than cores, one case for each width,
// number of gates and size of a chunk
func (e *Env) poolShape(k int) {
	r := e.R
	what, bG, gates, small := k%3, k/3%3, 1+k/9%2, k/18%2
	cores := 1 + r.Intn(3)
	logc := 2 + r.Intn(3)
	chunks := 1 << uint(logc)
	e.shape = gates
	hook := jitter(300 * time.Microsecond)
	desc := func() string { return fmt.Sprintf("%d gates, random delays", gates) }
	bN := logc
	if small == 0 {
		bN += 1 + r.Intn(2)
	}
	switch what {
	case 0:
		e.poolClaim(bN, bG, chunks, cores, hook, desc)
	case 1:
		e.poolProve(bN, bG, chunks, cores, hook, desc)
	case 2:
		e.poolEvaluate(chunks, cores, hook, desc)
	}
}

// poolEvaluate evaluates a circuit whose gates report
func (e *Env) poolEvaluate(chunks, cores int, hook func(string), desc func() string) {
	r := e.R
	rec := newRecorder(cores, 40*time.Millisecond, 2*time.Millisecond)
	plain := r.circ(2, 1, 3, true)
	if e.Idx%4 == 1 { // wide layers: a lot of work for each chunk
		plain = r.circ(1, 6, 80, true)
	}
	if e.shape > 0 {
		plain = r.circ(1, e.shape-1, 1, true)
	}
	layers := [][]W{}
	for _, ws := range plain.Layers {
		var l []W
		for _, w := range ws {
			l = append(l, W{w.L, w.R, w.O, w.G.probed(rec)})
		}
		layers = append(layers, l)
	}
	n := chunks * (1 + r.Intn(3))
	in := r.vec(n<<uint(plain.BG[0]), r.style())
	code := newCirc(layers).Code
	before := runtime.NumGoroutine()
	var a circuit.Assignment
	withHook(hook, func() { a = code.Assign(chunked(in, chunks), cores) })
	rec.returned()
	left := leftBehind(before)
	setHook(nil)
	e.emitPool("evaluation", rec, chunks, left, desc())
	vals := make([][][]Fs1, 1)
	for _, l := range a.Values {
		vals[0] = append(vals[0], fs2(l))
	}
	e.Emit(J{"kind": "eval", "n": n, "layers": plain.Desc, "inputs": Fs1(in),
		"runs": []J{{"chunks": chunks, "split": [][]int{}, "cores": cores, "values": vals[0]}}, "note": "evaluation under " + desc()})
}

// poolGkr proves a batch by GKR with gates that report, and verifies the proof
func (e *Env) poolGkr(chunks, cores int, hook func(string), desc func() string) {
	r := e.R
	rec := newRecorder(cores, 60*time.Millisecond, time.Millisecond)
	plain := r.circ(3, 1, 3, true)
	layers := [][]W{}
	for _, ws := range plain.Layers {
		var l []W
		for _, w := range ws {
			l = append(l, W{w.L, w.R, w.O, w.G.probed(rec)})
		}
		layers = append(layers, l)
	}
	bN := log2(chunks) + r.Intn(2)
	in := r.vec(1<<uint(bN+plain.BG[0]), r.style())
	a := plain.Code.Assign(chunked(in, chunks), 2)
	code := newCirc(layers).Code
	p := gkr.NewProver(code, a)
	before := runtime.NumGoroutine()
	var proof gkr.Proof
	withHook(hook, func() { proof = p.Prove(cores) })
	rec.returned()
	left := leftBehind(before)
	setHook(nil)
	e.emitPool(fmt.Sprintf("GKR of %d layers, bN=%d", len(layers), bN), rec, chunks, left, desc())

	v := gkr.NewVerifier(bN, plain.Code)
	before = runtime.NumGoroutine()
	ok := false
	withHook(hook, func() { ok = v.Verify(proof, a.Values[0], a.Values[len(layers)]) })
	left = leftBehind(before)
	setHook(nil)
	e.Emit(J{"kind": "pool", "cores": 1, "chunks": 0, "ev": [][2]int{{3, 0}}, "left": left,
		"note": fmt.Sprintf("verification, result %v", ok)})
}

func (e *Env) poolInst(bN, bG int, rec *recorder) (plain, probed *Inst) {
	plain = e.R.inst(bN, bG, 2)
	for e.shape > 0 && len(plain.Gates) != e.shape {
		plain = e.R.inst(bN, bG, 2)
	}
	for i := range plain.St {
		if e.shape > 0 || e.R.Intn(4) != 0 { // gates are not computed where their wiring is zero
			plain.St[i] = e.R.vec(len(plain.St[i]), vsRandom)
		}
	}
	p := *plain
	p.Gates = nil
	for _, g := range plain.Gates {
		p.Gates = append(p.Gates, g.probed(rec))
	}
	return plain, &p
}

// poolProve runs the multi-threaded prover with gates that report
func (e *Env) poolProve(bN, bG, chunks, cores int, hook func(string), desc func() string) {
	rec := newRecorder(cores, 40*time.Millisecond, time.Millisecond)
	plain, i := e.poolInst(bN, bG, rec)
	st := plain.runSingle()
	p := i.multi(chunks)
	q := plain.multi(chunks)
	claim := q.GetClaim(cores)
	before := runtime.NumGoroutine()
	var run J
	withHook(hook, func() {
		proof, qP, qL, qR, fin := p.Prove(cores)
		run = runJ(claim, proof, qP, qL, qR, fin)
	})
	rec.returned()
	left := leftBehind(before)
	setHook(nil)
	e.emitPool(fmt.Sprintf("prover bN=%d bG=%d", bN, bG), rec, chunks, left, desc())
	e.Emit(J{"kind": "summt", "st": st, "mt": []J{run}, "note": "prover under " + desc()})
}

// poolClaim runs the multi-threaded computation of the claim with gates that report
func (e *Env) poolClaim(bN, bG, chunks, cores int, hook func(string), desc func() string) {
	rec := newRecorder(cores, 40*time.Millisecond, time.Millisecond)
	plain, i := e.poolInst(bN, bG, rec)
	st := plain.runSingle()
	p := i.multi(chunks)
	before := runtime.NumGoroutine()
	var claim fr.Element
	withHook(hook, func() { claim = p.GetClaim(cores) })
	rec.returned()
	left := leftBehind(before)
	setHook(nil)
	e.emitPool(fmt.Sprintf("claim bN=%d bG=%d", bN, bG), rec, chunks, left, desc())
	run := J{}
	for k, v := range st {
		run[k] = v
	}
	run["claim"] = F(claim)
	e.Emit(J{"kind": "summt", "st": st, "mt": []J{run}, "note": "claim under " + desc()})
}

// poolCopy copies the tables of an assignment
func (e *Env) poolCopy(chunks, cores int, hook func(string)) {
	r := e.R
	n := 1 + r.Intn(6)
	tabs := make([][]fr.Element, chunks)
	for i := range tabs {
		tabs[i] = r.vec(n, r.style())
	}
	a := circuit.Assignment{Values: [][][]fr.Element{cp2(tabs)}}
	before := runtime.NumGoroutine()
	var res [][]fr.Element
	withHook(hook, func() {
		for _, b := range a.LayerAsBKTWithCopy(0, cores) {
			res = append(res, b.Table)
		}
	})
	left := leftBehind(before)
	setHook(nil)
	e.Emit(J{"kind": "copies", "src": fs2(tabs), "dst": fs2(res), "left": left,
		"note": fmt.Sprintf("copy of %d tables by %d cores", chunks, cores)})
}

// poolStress makes many short calls: the ends of the workers race with the return
func (e *Env) poolStress(r *R) {
	c := r.circ(1, 1, 2, false)
	l := c.Code.Layers[0]
	rounds := 400
	note := ""
	before := runtime.NumGoroutine()
	for k := 0; k < rounds; k++ {
		chunks := 1 + r.Intn(8)
		cores := 1 + r.Intn(chunks+3)
		in := make([][]fr.Element, chunks)
		for i := range in {
			in[i] = make([]fr.Element, 1<<uint(c.BG[0]))
		}
		if k%20 == 0 {
			setHook(jitter(100 * time.Microsecond))
		} else if k%20 == 5 {
			setHook(nil)
		}
		l.Evaluate(in, cores)
		a := circuit.Assignment{Values: [][][]fr.Element{in}}
		a.LayerAsBKTWithCopy(0, cores)
	}
	left := leftBehind(before)
	setHook(nil)
	e.Emit(J{"kind": "pool", "cores": 1, "chunks": 0, "ev": [][2]int{{3, 0}}, "left": left,
		"note": fmt.Sprintf("%d short calls%s", rounds, note)})
}

// ---- table copies, observed through the pages they touch ----

type pages struct {
	mem  []byte
	vec  []byte
	size int
}

func newPages(n int) *pages {
	size := n * 4096
	m, err := syscall.Mmap(-1, 0, size, syscall.PROT_READ, syscall.MAP_PRIVATE|syscall.MAP_ANON)
	if err != nil {
		return nil
	}
	syscall.Madvise(m, 15) // MADV_NOHUGEPAGE
	return &pages{mem: m, vec: make([]byte, n), size: n}
}

// touched is the number of pages read so far
func (p *pages) touched() int {
	_, _, e := syscall.Syscall(syscall.SYS_MINCORE, uintptr(unsafe.Pointer(&p.mem[0])), uintptr(len(p.mem)), uintptr(unsafe.Pointer(&p.vec[0])))
	if e != 0 {
		return -1
	}
	n := 0
	for _, b := range p.vec {
		n += int(b & 1)
	}
	return n
}

func (p *pages) table() []fr.Element {
	n := len(p.mem) / int(unsafe.Sizeof(fr.Element{}))
	return (*[1 << 30]fr.Element)(unsafe.Pointer(&p.mem[0]))[:n:n]
}

// poolPages copies large tables that nobody has read yet. A table whose pages are read in part at
// the end of one look and still in part at the beginning of the next is being copied in between:
// all tables for which this holds are being copied at that time.
func (e *Env) poolPages(chunks, cores int) {
	const n = 1024
	var ps []*pages
	defer func() {
		for _, p := range ps {
			syscall.Munmap(p.mem)
		}
	}()
	a := circuit.Assignment{Values: make([][][]fr.Element, 1)}
	for i := 0; i < chunks; i++ {
		p := newPages(n)
		if p == nil || p.touched() != 0 {
			e.Emit(J{"kind": "pool", "cores": 1, "chunks": 0, "ev": [][2]int{{3, 0}}, "left": 0, "note": "pages cannot be observed here"})
			return
		}
		ps = append(ps, p)
		a.Values[0] = append(a.Values[0], p.table())
	}
	before := runtime.NumGoroutine()
	done := make(chan struct{})
	go func() {
		a.LayerAsBKTWithCopy(0, cores)
		close(done)
	}()
	best := []int{}
	partial := make([]bool, chunks)
	looks := 0
	for over := false; !over; {
		select {
		case <-done:
			over = true
		default:
		}
		looks++
		both := []int{}
		next := make([]bool, chunks)
		for i, p := range ps {
			t := p.touched()
			if t > 0 && t < n {
				next[i] = true
				if partial[i] {
					both = append(both, i+1)
				}
			}
		}
		if len(both) > len(best) {
			best = both
		}
		partial = next
	}
	left := leftBehind(before)
	ev := [][2]int{}
	for _, w := range best {
		ev = append(ev, [2]int{1, w})
	}
	for _, w := range best {
		ev = append(ev, [2]int{2, w})
	}
	ev = append(ev, [2]int{3, 0})
	e.Emit(J{"kind": "pool", "cores": cores, "chunks": chunks, "ev": ev, "left": left,
		"note": fmt.Sprintf("table copies, %d tables, %d cores, %d at once seen in %d looks", chunks, cores, len(best), looks)})
}

// poolFold runs the prover on large tables and looks at the tables while they are being folded. A table
// one end of which is folded and the other is not at the end of one look, and still at the beginning of
// the next, is being folded in between.
func (e *Env) poolFold(chunks, cores, bG int) {
	r := e.R
	bN := 12 + log2(chunks)
	n, g := 1<<uint(bN), 1<<uint(bG)
	i := &Inst{BN: bN, BG: bG, Gates: []G{gAdd()}, St: [][]fr.Element{r.vec(g*g, vsRandom)}}
	fill := func(n int) []fr.Element {
		res := make([]fr.Element, n)
		x := r.elt()
		for i := range res {
			res[i] = x
			x.Add(&x, &res[i/2])
			x[0] ^= uint64(i)
		}
		return res
	}
	i.VL, i.VR, i.Eq = fill(n*g), fill(n*g), fill(n)
	vL, vR, eq := bkts(chunked(i.VL, chunks)), bkts(chunked(i.VR, chunks)), bkts(chunked(i.Eq, chunks))
	p := sumcheck.NewMultiThreadedProver(vL, vR, eq, i.codeGates(), bkts(i.St))
	type watch struct {
		a, b   *uint64
		a0, b0 uint64
		part   bool
	}
	watches := make([][]watch, chunks) // watches[c]: the tables of chunk c
	for c := range watches {
		for _, t := range [][]fr.Element{vL[c].Table, vR[c].Table, eq[c].Table} {
			mid := len(t) / 2
			if t[0][0] == t[mid][0] || t[mid-1][0] == t[2*mid-1][0] {
				continue // folding would not show
			}
			w := watch{a: &t[0][0], b: &t[mid-1][0]}
			w.a0, w.b0 = *w.a, *w.b
			watches[c] = append(watches[c], w)
		}
	}
	before := runtime.NumGoroutine()
	done := make(chan struct{})
	go func() {
		p.Prove(cores)
		close(done)
	}()
	best := []int{}
	looks := 0
	for over := false; !over; {
		if looks%64 == 0 {
			select {
			case <-done:
				over = true
			default:
			}
		}
		looks++
		both := []int{}
		for c := range watches {
			folding := false
			for k := range watches[c] {
				w := &watches[c][k]
				// (the second look at a table has to begin after the first look at all of them)
				part := (atomic.LoadUint64(w.a) != w.a0) != (atomic.LoadUint64(w.b) != w.b0)
				folding = folding || part && w.part
				w.part = part
			}
			if folding {
				both = append(both, c+1)
			}
		}
		if len(both) > len(best) {
			best = both
		}
	}
	left := leftBehind(before)
	ev := [][2]int{}
	for _, w := range best {
		ev = append(ev, [2]int{1, w})
	}
	for _, w := range best {
		ev = append(ev, [2]int{2, w})
	}
	ev = append(ev, [2]int{3, 0})
	e.Emit(J{"kind": "pool", "cores": cores, "chunks": chunks, "ev": ev, "left": left,
		"note": fmt.Sprintf("folding bG=%d, %d chunks, %d cores, %d at once seen in %d looks", bG, chunks, cores, len(best), looks)})
}
