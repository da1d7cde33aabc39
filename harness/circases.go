package main

import (
	"fmt"

	"gkr-mimc/circuit"
	"gkr-mimc/examples"
	"gkr-mimc/hash"

	"github.com/consensys/gurvy/bn256/fr"
)

func init() {
	props["C05race"] = &Prop{Count: tierCount(24, 150), Run: runC05} // under the race detector
	props["C05"] = &Prop{
		Count: func(e *Env) int {
			if e.Quick {
				return 350 + len(e.Scen)
			}
			return 2500 + len(e.Scen)
		},
		Run: runC05,
	}
	props["C06"] = &Prop{Count: tierCount(60, 600), Run: runC06}
	props["C20"] = &Prop{Count: tierCount(700, 8000), Run: runC20}
}

func runC05(e *Env) {
	r := e.R
	var c *Circ
	bN := r.Intn(4)
	huge := false
	switch {
	case e.Idx < len(e.Scen):
		c, bN, _, _ = circFromScen(e.Scen[e.Idx])
	case e.Idx%41 == 0: // very large batches
		c = r.circ(1, 1, 3, true)
		bN = r.pick(9, 10, 11)
		if e.Idx%82 == 41 { // beyond the sizes at which the library divides tables into ranges
			c, bN = r.circ(1, 1, 3, true), r.pick(12, 13, 14)
			huge = true
		}
	case e.Idx%41 == 1: // very wide layers
		c = r.circ(2, 7, 150, true)
		bN = r.Intn(2)
	case e.Idx%41 == 2: // wires that are there hundreds of times
		c = r.repeated(2, 3)
		bN = r.Intn(2)
	case e.Idx%82 == 3: // very many layers
		c = r.tower()
		bN = r.Intn(2)
	case e.Idx%11 == 0:
		c = r.circ(2, 1, 4, true)
		bN = r.pick(5, 6, 7, 8)
	case e.Idx%7 == 0:
		c = r.circ(2, 5, 30, true)
		bN = r.Intn(2)
	case e.Idx%5 == 0:
		c = r.circ(10, 2, 5, true)
	default:
		c = r.circ(4, 3, 8, true)
	}
	if e.Idx >= len(e.Scen) && e.Idx%6 == 3 && !huge {
		e.unevenBatch(c)
		return
	}
	inputs := r.vec(1<<uint(bN+c.BG[0]), r.style())
	if huge {
		inputs = r.vec(1<<uint(bN+c.BG[0]), r.pick(vsSmall, vsSparse, vsPeriodic))
	}
	runs := []J{}
	if e.Idx%4 == 1 && !huge { // another batch was evaluated in the same arrays before
		nc := 1 << uint(r.Intn(bN+1))
		in := chunked(r.like(inputs), nc)
		c.Code.Assign(in, 1+r.Intn(nc+1))
		pour(in, chunked(inputs, nc))
		a := c.Code.Assign(in, 1+r.Intn(nc+1))
		vals := make([][]Fs1, len(a.Values))
		for i := range vals {
			vals[i] = fs2(a.Values[i])
		}
		runs = append(runs, J{"chunks": nc, "split": [][]int{}, "cores": 1, "values": vals})
	}
	ks := []int{0, bN}
	for k := 1; k < bN; k++ {
		if huge && k > 1 {
			continue
		}
		if bN <= 4 || huge || r.Intn(3) == 0 {
			ks = append(ks, k)
		}
	}
	for _, k := range ks {
		nc := 1 << uint(k)
		cores := []int{r.cores(nc)}
		if bN <= 2 {
			cores = []int{1, 1 + r.Intn(nc), nc, nc + 1 + r.Intn(4), r.cores(nc)}
		}
		for _, core := range cores {
			a := c.Code.Assign(chunked(inputs, nc), core)
			vals := make([][]Fs1, len(a.Values))
			for i := range vals {
				vals[i] = fs2(a.Values[i])
			}
			runs = append(runs, J{"chunks": nc, "split": [][]int{}, "cores": core, "values": vals})
			if e.Idx%3 == 0 && bN <= 3 { // the tables the layers are handed out as
				vals := make([][]Fs1, len(a.Values))
				for i := range vals {
					tabs := a.LayerAsBKTNoCopy(i)
					if r.Intn(2) == 0 {
						tabs = a.LayerAsBKTWithCopy(i, core)
					}
					for _, t := range tabs {
						vals[i] = append(vals[i], Fs1(t.Table))
					}
				}
				runs = append(runs, J{"chunks": nc, "split": [][]int{}, "cores": core, "values": vals})
			}
		}
	}
	e.Emit(J{"kind": "eval", "layers": c.Desc, "n": 1 << uint(bN), "inputs": Fs1(inputs), "runs": runs,
		"note": fmt.Sprintf("%d layers, bN=%d, %d runs", len(c.Layers), bN, len(runs))})
}

// unevenBatch evaluates any number of instances, handed out to chunks of any sizes in any order
func (e *Env) unevenBatch(c *Circ) {
	r := e.R
	n := r.pick(1+r.Intn(7), 1+r.Intn(30))
	w := 1 << uint(c.BG[0])
	if w > 16 {
		n = 1 + r.Intn(5)
	}
	inputs := r.vec(n*w, r.style())
	runs := []J{}
	for k := 0; k < 4; k++ {
		// the instances of each chunk
		split := [][]int{}
		perm := r.Perm(n)
		if k%2 == 0 {
			for i := range perm {
				perm[i] = i
			}
		}
		for len(perm) > 0 {
			m := 1 + r.Intn(len(perm))
			if r.Intn(3) == 0 {
				m = 1 + r.Intn(1+len(perm)/4)
			}
			split = append(split, perm[:m])
			perm = perm[m:]
		}
		in := make([][]fr.Element, len(split))
		for i, s := range split {
			in[i] = make([]fr.Element, 0, len(s)*w)
			for g := 0; g < w; g++ {
				for _, h := range s {
					in[i] = append(in[i], inputs[g*n+h])
				}
			}
		}
		core := r.cores(len(split))
		a := c.Code.Assign(in, core)
		vals := make([][]Fs1, len(a.Values))
		for i := range vals {
			vals[i] = fs2(a.Values[i])
		}
		runs = append(runs, J{"chunks": len(split), "split": split, "cores": core, "values": vals})
	}
	e.Emit(J{"kind": "eval", "layers": c.Desc, "n": n, "inputs": Fs1(inputs), "runs": runs,
		"note": fmt.Sprintf("%d layers, %d instances in uneven chunks", len(c.Layers), n)})
}

func runC06(e *Env) {
	r := e.R
	bN := r.pick(0, 1, 2, 2, 3, 4, 5)
	if e.Idx%15 == 7 {
		bN = r.pick(6, 7, 8)
	}
	n := 1 << uint(bN)
	keys, states := r.pair(n, r.style())
	switch r.Intn(6) {
	case 0: // a shifted state of zero
		for i := range keys {
			keys[i].Neg(&states[i])
		}
	case 1:
		copy(keys, states)
	case 2: // a round key that cancels the constant of some round
		for i := range keys {
			keys[i] = arks[r.Intn(len(arks))]
			if r.Intn(2) == 0 {
				keys[i].Neg(&keys[i])
			}
		}
	}
	if r.Intn(2) == 0 {
		r.cornerMimc(states, keys)
	}
	in := make([]fr.Element, 2*n)
	upd := make([]fr.Element, n)
	for h := range keys {
		in[h].Add(&states[h], &keys[h])
		in[n+h] = keys[h]
		upd[h] = states[h]
		hash.MimcUpdateInplace(&upd[h], keys[h])
	}
	nc := 1 << uint(r.Intn(bN+1))
	c := examples.CreateMimcCircuit()
	a := c.Assign(chunked(in, nc), 1+r.Intn(2*nc+1))
	out := unchunk(a.Values[len(a.Values)-1])
	e.Emit(J{"kind": "mimc", "keys": Fs1(keys), "states": Fs1(states), "outputs": Fs1(out), "updates": Fs1(upd),
		"note": fmt.Sprintf("%d instances in %d chunks", n, nc)})
}

// describe finds the gate of the palette that computes what g computes
func (r *R) describe(g circuit.Gate, palette []G) J {
	pts := [][2]fr.Element{{fint(2), fint(3)}, {r.elt(), r.elt()}, {r.elt(), r.elt()}}
	for _, sameID := range []bool{true, false} { // two gates of the palette may happen to be the same function
		for _, p := range palette {
			same := !sameID || p.Code.ID() == g.ID()
			for _, x := range pts {
				var a, b fr.Element
				g.Eval(&a, &x[0], &x[1])
				p.Code.Eval(&b, &x[0], &x[1])
				same = same && a == b
			}
			if same {
				return p.Desc
			}
		}
	}
	return J{"k": "unknown"}
}

func runC20(e *Env) {
	r := e.R
	bi, bo := r.Intn(3), r.Intn(3)
	switch {
	case e.Idx%20 == 0:
		bi, bo = 3, r.Intn(4)
	case e.Idx%20 == 1:
		bi, bo = r.Intn(2), r.Intn(6)
	}
	nw := 1 + r.Intn(10)
	few := e.Idx%4 == 2 // one or two wires, in a wide space
	if few {
		nw = 1 + r.Intn(2)
		bi, bo = r.Intn(4), r.Intn(4)
	}
	np := 1 + r.Intn(6)
	if e.Idx%25 == 9 { // many gates, many wires
		nw, np = 12+r.Intn(40), 6+r.Intn(12)
	}
	if e.Idx%50 == 24 {
		bi, bo = 4, r.Intn(3)
	}
	vast := e.Idx%100 == 60 // tables of 2^15 to 2^17 entries before they are folded
	if vast {
		nw, np = 6+r.Intn(8), 1+r.Intn(2)
		bi = 3 + r.Intn(3)
		bo = 15 + r.Intn(3) - 2*bi
	}
	// few wires on a wide layer leave gaps; gates that are close to each other share wires
	var palette []G
	base := r.elt()
	close := r.closeArks(base)
	for i := 0; i < np; i++ {
		switch r.Intn(6) {
		case 0:
			palette = append(palette, gAdd())
		case 1:
			palette = append(palette, gMul())
		case 2:
			palette = append(palette, gCopy())
		case 3:
			palette = append(palette, r.polyGate(r.pick(1, 3, 5)))
		default:
			palette = append(palette, gCipher(close[r.Intn(len(close))]))
		}
	}
	ws := []W{}
	for i := 0; i < nw; i++ {
		w := W{r.Intn(1 << uint(bi)), r.Intn(1 << uint(bi)), r.Intn(1 << uint(bo)), palette[r.Intn(len(palette))]}
		ws = append(ws, w)
		for !few && r.Intn(4) == 0 {
			ws = append(ws, w)
		}
		if !few && r.Intn(3) == 0 { // the same wire for another gate
			w.G = palette[r.Intn(len(palette))]
			ws = append(ws, w)
		}
	}
	if e.Idx%70 == 31 { // the same wire hundreds of times
		ws = r.repeat(ws)
	}
	l := circuit.NewLayer(codeWires(ws))
	gates := []J{}
	for _, g := range l.Gates {
		gates = append(gates, r.describe(g, palette))
	}
	tables := []J{}
	one := make([]fr.Element, l.BGOutputs) // the same array for all the points
	read := func(q []fr.Element) {
		tabs := []Fs1{}
		copy(one, q)
		for _, t := range l.GetStaticTable(one[:len(q)]) {
			tabs = append(tabs, Fs1(cp1(t.Table)))
			for len(t.Table) > 1 && len(tabs)%2 == 1 { // the caller owns the tables, and folds them
				t.Fold(r.val())
			}
		}
		tables = append(tables, J{"q": Fs1(q), "tabs": tabs})
	}
	full := r.vec(l.BGOutputs, vsRandom)
	read(full)
	if vast {
		read(vertex(ws[r.Intn(len(ws))].O, l.BGOutputs))
	} else {
		read(r.vec(l.BGOutputs, vsMixed))
		read(full) // once more
		read(vertex(ws[r.Intn(len(ws))].O, l.BGOutputs))
	}
	if l.BGOutputs > 0 {
		read(vertex(r.Intn(1<<uint(l.BGOutputs)), l.BGOutputs))
	}
	e.Emit(J{"kind": "layer", "wires": layerDesc(ws)["wires"], "bgin": l.BGInputs, "bgout": l.BGOutputs, "gates": gates,
		"tables": tables, "note": fmt.Sprintf("%d wires of %d gates", len(ws), len(gates))})
	if e.Idx%2 == 0 {
		e.widest(e.Idx / 2)
	}
}

// widest records the widths of a layer in which a single end of a single wire decides them
func (e *Env) widest(k int) {
	r := e.R
	in, out := 1+k%12, 1+k/2%12
	under := func(n int) int { // the last one of half the width, or close to it
		return (1<<uint(n-1))*(3+r.Intn(6)/5)/4 - r.Intn(2)*r.Intn(1<<uint(n-1)/4+1)
	}
	if k/40%2 == 1 {
		under = func(n int) int { return 1<<uint(n-1) - 1 - r.Intn(2)*r.Intn(1<<uint(n-1)) }
	}
	clamp := func(x, n int) int {
		if x > 1<<uint(n-1)-1 {
			return 1<<uint(n-1) - 1
		}
		return x
	}
	nw := 1 + r.Intn(4)
	gates := []G{gAdd(), gMul(), gCopy()}
	ws := make([]W, nw)
	for i := range ws {
		ws[i] = W{clamp(under(in), in), clamp(under(in), in), clamp(under(out), out), gates[r.Intn(3)]}
	}
	beyond := func(n int) int {
		return 1<<uint(n-1) + r.pick(0, 0, 1, 1<<uint(n-1)-1, r.Intn(1<<uint(n-1)))%(1<<uint(n-1))
	}
	i := r.Intn(nw)
	if r.Intn(2) == 0 {
		ws[i].L = beyond(in)
	} else {
		ws[i].R = beyond(in)
	}
	if r.Intn(3) > 0 {
		ws[r.Intn(nw)].O = beyond(out)
	}
	l := circuit.NewLayer(codeWires(ws))
	listed := []J{}
	for _, g := range l.Gates {
		listed = append(listed, r.describe(g, gates))
	}
	e.Emit(J{"kind": "layer", "wires": layerDesc(ws)["wires"], "bgin": l.BGInputs, "bgout": l.BGOutputs, "gates": listed,
		"tables": []J{}, "note": fmt.Sprintf("the widest operand of %d wires", nw)})
}
