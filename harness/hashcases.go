package main

import (
	"fmt"
	"sync"

	"gkr-mimc/common"
	"gkr-mimc/hash"

	"github.com/consensys/gurvy/bn256/fr"
)

// hasher gives access to one hash function of the code
type hasher struct {
	alg    string
	t      int
	update func(state, block []fr.Element)
	hash   func(msg []fr.Element) fr.Element
}

var hashers = []hasher{
	{"mimc", 1, func(s, b []fr.Element) { hash.MimcUpdateInplace(&s[0], b[0]) }, hash.MimcHash},
	{"gmimc", 2, func(s, b []fr.Element) { hash.GMimcT2.UpdateInplace(s, b) }, func(m []fr.Element) fr.Element { return hash.GMimcT2.Hash(m) }},
	{"gmimc", 4, func(s, b []fr.Element) { hash.GMimcT4.UpdateInplace(s, b) }, func(m []fr.Element) fr.Element { return hash.GMimcT4.Hash(m) }},
	{"gmimc", 8, func(s, b []fr.Element) { hash.GMimcT8.UpdateInplace(s, b) }, func(m []fr.Element) fr.Element { return hash.GMimcT8.Hash(m) }},
	{"poseidon", 2, func(s, b []fr.Element) { hash.PoseidonT2.Update(s, b) }, func(m []fr.Element) fr.Element { return hash.PoseidonT2.Hash(m) }},
	{"poseidon", 4, func(s, b []fr.Element) { hash.PoseidonT4.Update(s, b) }, func(m []fr.Element) fr.Element { return hash.PoseidonT4.Hash(m) }},
	{"poseidon", 8, func(s, b []fr.Element) { hash.PoseidonT8.Update(s, b) }, func(m []fr.Element) fr.Element { return hash.PoseidonT8.Hash(m) }},
}

func init() {
	props["C15conc"] = &Prop{Count: tierCount(21, 140), Run: runC15conc}
	props["C15first"] = &Prop{Count: tierCount(8, 40), Run: runC15first}
	props["C15"] = &Prop{Count: tierCount(7*3*5+7*26, 7*3*20+7*160), Run: runC15}
}

func runC15(e *Env) {
	r := e.R
	nSponge := 7 * 3 * 5
	nLen := 26
	if !e.Quick {
		nSponge, nLen = 7*3*20, 160
	}
	if e.Idx < nSponge {
		h := hashers[e.Idx%7]
		alg := h.alg
		if h.t == 1 && e.Idx%2 == 0 {
			alg = "mimcperm"
		}
		state := r.vec(h.t, []int{vsZero, vsRandom, vsMixed}[e.Idx/7%3])
		c := J{"kind": "sponge", "alg": alg, "t": h.t, "start": Fs1(cp1(state)), "note": fmt.Sprintf("%s t=%d updates", alg, h.t)}
		steps := []J{}
		n := 3
		if alg == "poseidon" && h.t == 8 {
			n = 2
		}
		for k := 0; k < n; k++ {
			b := r.vec(h.t, r.style())
			if r.Intn(2) == 0 { // the S-boxes of some round receive special values
				if nr := nbRounds(h.alg, h.t); k == 0 {
					copy(state, r.cornered(h.alg, b, r.pick(0, 1, nr-1, r.Intn(nr))))
					c["start"] = Fs1(cp1(state))
				} else {
					copy(b, r.cornerBlock(state))
				}
			}
			blk := cp1(b)
			if alg == "mimcperm" {
				hash.MimcPermutationInPlace(&state[0], blk[0])
			} else {
				h.update(state, blk)
			}
			steps = append(steps, J{"block": Fs1(b), "after": Fs1(cp1(state)), "blockAfter": Fs1(blk)})
		}
		c["steps"] = steps
		e.Emit(c)
		return
	}
	k := e.Idx - nSponge
	h := hashers[k%7]
	n := k / 7
	if n >= nLen-5 { // a few long ones
		n = 40 + r.Intn(30)
		if k/7 == nLen-1 {
			n = r.pick(100, 127, 128, 129, 200, 255, 256, 257, 300)
		}
		if k/7 == nLen-2 && h.alg == "mimc" {
			n = r.pick(1024, 1025, 2049+r.Intn(60), 4096+r.Intn(40))
		}
		if k/7 == nLen-2 && h.alg == "gmimc" {
			n = 1024 + r.Intn(40)
		}
		if e.Quick && h.alg == "poseidon" {
			n = 20 + r.Intn(8)
			if k/7 == nLen-1 {
				n = 63 + r.Intn(4)
			}
		}
	}
	msg := r.vec(n, r.pick(vsMixed, vsRandom, vsRandom, vsSparse, vsZero, vsConst))
	if n > 0 && r.Intn(3) == 0 {
		msg[n-1] = fint(0) // looks like padding
	}
	if n > 0 && r.Intn(3) == 0 { // a block makes the first S-boxes after it receive special values
		at := r.Intn((n-1)/h.t+1) * h.t
		state := make([]fr.Element, h.t)
		for i := 0; i < at; i += h.t {
			h.update(state, cp1(msg[i:i+h.t]))
		}
		copy(msg[at:], r.cornerBlock(state))
	}
	// the message is a slice of a longer one, or all there is of it
	arg, around := r.within(msg)
	// another message was there before, and is there in between
	copy(arg, r.vec(n, vsRandom))
	h.hash(arg)
	copy(arg, msg)
	d := h.hash(arg)
	if r.Intn(2) == 0 {
		copy(arg, r.like(msg))
		h.hash(arg)
		copy(arg, msg)
	}
	d2 := h.hash(arg)
	e.Emit(J{"kind": "digest", "alg": h.alg, "t": h.t, "msg": Fs1(msg), "digest": F(d), "again": F(d2), "msgAfter": Fs1(cp1(arg)),
		"around": around(), "conc": Fs1{}, "note": fmt.Sprintf("%s t=%d length %d", h.alg, h.t, n)})
}

// within returns m as part of a longer slice (or on its own), and a function that says what is around it: before and now
func (r *R) within(m []fr.Element) (arg []fr.Element, around func() J) {
	before, after := r.vec(r.pick(0, 1, 5), vsRandom), r.vec(r.pick(0, 1, 9, 16), vsRandom)
	long := make([]fr.Element, 0, len(before)+len(m)+len(after))
	long = append(append(append(long, before...), m...), after...)
	rest := func() Fs1 {
		return Fs1(append(cp1(long[:len(before)]), long[len(before)+len(m):]...))
	}
	was := rest()
	return long[len(before) : len(before)+len(m)], func() J { return J{"was": was, "is": rest()} }
}

// runC15conc has several users hash at the same time, under the race detector
func runC15conc(e *Env) {
	r := e.R
	h := hashers[e.Idx%7]
	const users, each = 6, 3
	msgs := make([][]fr.Element, users)
	for u := range msgs {
		msgs[u] = r.vec(1+r.Intn(2*h.t+2), vsRandom)
	}
	got := make([][]fr.Element, users)
	start := make(chan struct{})
	var wg sync.WaitGroup
	for u := range msgs {
		wg.Add(1)
		go func(u int) {
			defer wg.Done()
			<-start
			for k := 0; k < each; k++ {
				// the first half of the users share a message
				got[u] = append(got[u], h.hash(msgs[u/3*3]))
			}
		}(u)
	}
	close(start)
	wg.Wait()
	for g := 0; g < users; g += 3 {
		conc := []fr.Element{}
		for u := g; u < g+3; u++ {
			conc = append(conc, got[u]...)
		}
		e.Emit(J{"kind": "digest", "alg": h.alg, "t": h.t, "msg": Fs1(msgs[g]), "digest": F(conc[0]), "again": F(conc[1]),
			"msgAfter": Fs1(msgs[g]), "around": J{"was": Fs1{}, "is": Fs1{}}, "conc": Fs1(conc),
			"note": fmt.Sprintf("%s t=%d length %d, %d users at the same time", h.alg, h.t, len(msgs[g]), users)})
	}
}

// runC15first has users make the first calls of the process at the same time, two for each
// function. It needs a process of its own.
func runC15first(e *Env) {
	r := e.R
	n := len(hashers)
	msgs := make([][]fr.Element, n)
	got := make([]fr.Element, 2*n)
	for u := range msgs {
		msgs[u] = r.vec(1+r.Intn(hashers[u].t+2), vsRandom)
	}
	start := make(chan struct{})
	var wg sync.WaitGroup
	for u := range got {
		wg.Add(1)
		go func(u int) {
			defer wg.Done()
			<-start
			got[u] = hashers[u%n].hash(msgs[u%n])
		}(u)
	}
	close(start)
	wg.Wait()
	for k, h := range hashers {
		e.Emit(J{"kind": "digest", "alg": h.alg, "t": h.t, "msg": Fs1(msgs[k]), "digest": F(got[k]), "again": F(got[k+n]),
			"msgAfter": Fs1(msgs[k]), "around": J{"was": Fs1{}, "is": Fs1{}}, "conc": Fs1(cp1(got)[k : k+1]),
			"note": fmt.Sprintf("%s t=%d length %d, the first calls of a process, by %d users", h.alg, h.t, len(msgs[k]), len(got))})
	}
}

// near returns messages that differ from m in one respect
func (r *R) near(m []fr.Element) [][]fr.Element {
	res := [][]fr.Element{}
	add := func(x []fr.Element) { res = append(res, x) }
	for i := range m {
		x := cp1(m)
		d := r.val()
		if d.IsZero() {
			d = fint(1)
		}
		x[i].Add(&x[i], &d)
		add(x)
		if i+1 < len(m) {
			x = cp1(m)
			x[i], x[i+1] = x[i+1], x[i]
			add(x)
			x = cp1(m)
			x[i].Add(&x[i], &d)
			x[i+1].Sub(&x[i+1], &d)
			add(x)
		}
		add(append(cp1(m[:i]), m[i+1:]...))
	}
	add(append(cp1(m), fint(0)))
	add(append(cp1(m), r.elt()))
	add(append([]fr.Element{fint(0)}, m...))
	if len(m) > 0 {
		add(append(cp1(m), m[len(m)-1]))
		x := cp1(m)
		for i := range x {
			x[i] = m[len(m)-1-i]
		}
		add(x)
	}
	return res
}

// chalCase asks for challenges of a message and of those near to it
func (e *Env) chalCase(n int) {
	r := e.R
	m := r.vec(n, r.style())
	msgs := append([][]fr.Element{m}, r.near(m)...)
	if n > 20 {
		r.Shuffle(len(msgs)-1, func(i, j int) { msgs[i+1], msgs[j+1] = msgs[j+1], msgs[i+1] })
		msgs = msgs[:20]
	}
	chals, again := make([]fr.Element, len(msgs)), make([]fr.Element, len(msgs))
	after := make([][]fr.Element, len(msgs))
	arounds := []J{}
	for i := range msgs {
		arg, around := r.within(msgs[i])
		chals[i] = common.GetChallenge(arg)
		after[i] = cp1(arg)
		arounds = append(arounds, around())
	}
	one := make([]fr.Element, n+2)
	for _, i := range r.Perm(len(msgs)) { // in another order, from another slice, the same one for all
		copy(one, msgs[i])
		again[i] = common.GetChallenge(one[:len(msgs[i])])
	}
	e.Emit(J{"kind": "chal", "msgs": fs2(msgs), "chals": Fs1(chals), "again": Fs1(again), "after": fs2(after), "arounds": arounds,
		"note": fmt.Sprintf("length %d, %d messages", n, len(msgs))})
}
