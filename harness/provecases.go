package main

import (
	"fmt"
	"time"

	"gkr-mimc/gkr"
)

func init() {
	props["C21"] = &Prop{
		Count: func(e *Env) int {
			if e.Quick {
				return 200 + len(e.Scen)
			}
			return 1500 + len(e.Scen)
		},
		Run: runC21,
	}
}

// runC21 proves a batch, and the same batch in other chunks and with other numbers of cores
func runC21(e *Env) {
	r := e.R
	var c *Circ
	var bN int
	skip := false
	note := "random circuit"
	n := len(e.Scen)
	switch {
	case e.Idx < n:
		c, bN, _, _ = circFromScen(e.Scen[e.Idx])
		note = "TLC-enumerated circuit"
	case e.Idx < n+2:
		c, bN, note = codeMimc(), e.Idx-n, "MiMC circuit"
	case e.Idx%16 == 3:
		c, bN, note = r.circ(2, 1, 4, true), r.pick(5, 6, 7, 10, 12, 13), "large batch, proofs compared with each other"
		skip = true
	case e.Idx%32 == 11:
		c, bN, note = r.circ(2, 5, 50, true), r.Intn(3), "very wide circuit, proofs compared with each other"
		if r.Intn(3) == 0 {
			c = r.repeated(2, 2)
		}
		skip = true
	case e.Idx%64 == 27:
		c, bN, note = r.tower(), r.Intn(2), "very deep circuit"
	case e.Idx%16 == 7:
		c, bN, note = codeMimc(), r.pick(2, 3), "MiMC circuit, proofs compared with each other"
		skip = true
	case e.Idx%9 == 4:
		c, bN, note = r.circ(7, 1, 4, true), r.Intn(2), "deep circuit"
	case e.Idx%13 == 5:
		c, bN, note = r.circ(2, 3, 10, true), r.Intn(2), "wide circuit"
	default:
		c, bN = r.circ(3, 2, 6, true), r.Intn(4)
	}
	in := r.vec(1<<uint(bN+c.BG[0]), r.style())
	if len(c.Layers) == 91 {
		in = r.mimcInputs(bN)
	}
	nc := r.batch(bN)
	g := honest(c, bN, nc, r.cores(nc), in)
	others := []J{}
	if e.Idx%3 == 1 && len(c.Layers) < 20 {
		setHook(jitter(50 * time.Microsecond))
	}
	for k := 0; k <= bN; k++ {
		n := 1 << uint(k)
		for _, cores := range []int{1, r.cores(n)} {
			if bN > 3 && r.Intn(2) == 0 || bN > 8 && k > 2 && k < bN && r.Intn(4) != 0 {
				continue
			}
			others = append(others, proofJ(honest(c, bN, n, cores, in).Proof))
		}
	}
	setHook(nil)
	// once more, by the same prover
	p := gkr.NewProver(c.Code, g.Assignment)
	p.Prove(r.cores(2))
	others = append(others, proofJ(p.Prove(1+r.Intn(3))))
	s := g.stmtJ("", g.Proof, g.Inputs, g.Outputs, true)
	e.Emit(J{"kind": "gkrprove", "bn": bN, "layers": s["layers"], "q": s["q"], "qp": s["qp"], "inputs": s["inputs"],
		"proof": s["proof"], "others": others, "skip": skip,
		"note": fmt.Sprintf("%s, %d layers, bN=%d, %d other proofs", note, len(c.Layers), bN, len(others))})
}
