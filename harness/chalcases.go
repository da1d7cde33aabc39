package main

import (
	"fmt"

	"gkr-mimc/sumcheck"

	"github.com/consensys/gurvy/bn256/fr"
)

func init() {
	props["C10"] = &Prop{Count: tierCount(40+80+40+16+2, 200+900+500+200+6), Run: runC10}
}

func runC10(e *Env) {
	r := e.R
	n := []int{40, 80, 40, 16}
	if !e.Quick {
		n = []int{200, 900, 500, 200}
	}
	i := e.Idx
	switch {
	case i < n[0]:
		if i%20 == 19 {
			e.chalCase(20 + e.R.Intn(120))
			return
		}
		e.chalCase(i % 20)
	case i < n[0]+n[1]:
		e.sumChalCase()
	case i < n[0]+n[1]+n[2]:
		var g *gkrRun
		if i%20 == 0 {
			g = r.mimcRun(r.Intn(3), 1, 2)
		} else {
			g = r.randomRun(4, 2, 3, true)
		}
		// an honest proof is one whose challenges are all the specified ones
		for _, ok := range g.verdicts(g.Proof, g.Inputs, g.Outputs, true) {
			c := g.stmtJ("exact", g.Proof, g.Inputs, g.Outputs, ok)
			c["note"] = fmt.Sprintf("honest proof, %d layers, bN=%d, %d chunks", len(g.C.Layers), g.BN, g.NChunks)
			e.Emit(c)
		}
	case i < n[0]+n[1]+n[2]+n[3]:
		if i%2 == 0 {
			e.sumGadgetCase()
		} else {
			e.runGadget("hash", r.Intn(4))
		}
	default:
		e.gkrGadgetCase(i % 2)
	}
}

// sumChalCase records the challenges all parties derive from the same round polynomials
func (e *Env) sumChalCase() {
	r := e.R
	i := e.inst()
	long := e.Idx%20 == 5
	if long { // as many rounds as large batches have
		i = r.inst(10+r.Intn(4), r.Intn(2), 1)
	}
	st := i.single()
	claim := st.GetClaim()
	proof, qP, qL, qR, _ := st.Prove()
	runs := []J{}
	add := func(who string, polys [][]fr.Element, qL, qR, qP []fr.Element) {
		runs = append(runs, J{"who": who, "polys": fs2(polys), "chals": Fs1(append(append(cp1(qL), qR...), qP...))})
	}
	add("single-threaded prover", proof.PolyCoeffs, qL, qR, qP)
	for k := 0; k <= i.BN; k++ {
		if long && k != i.BN && r.Intn(6) != 0 {
			continue
		}
		mt := i.multi(1 << uint(k))
		p, qP, qL, qR, _ := mt.Prove(1 + r.Intn(4))
		add(fmt.Sprintf("multi-threaded prover, %d chunks", 1<<uint(k)), p.PolyCoeffs, qL, qR, qP)
	}
	if ok, qP, qL, qR, _ := (sumcheck.Verifier{}).Verify(claim, proof, i.BN, i.BG); ok {
		add("verifier", proof.PolyCoeffs, qL, qR, qP)
	}
	bN := i.BN
	if long {
		bN = 10 + r.Intn(20)
	}
	t := r.transcript(bN, i.BG, [3]int{}, 0)
	if ok, qP, qL, qR, _ := (sumcheck.Verifier{}).Verify(t.claim, sumcheck.Proof{PolyCoeffs: cp2(t.polys)}, bN, i.BG); ok {
		add("verifier on a made-up transcript", t.polys, qL, qR, qP)
	}
	e.Emit(J{"kind": "sumchal", "runs": runs, "note": fmt.Sprintf("bN=%d bG=%d, %d parties", i.BN, i.BG, len(runs))})
}
