package main

import (
	"math/big"

	"github.com/consensys/gurvy/bn256/fr"
)

// Arguments of the hash functions that make some S-box, deep inside, receive 0, 1 or -1. They are computed
// backwards from that round with the published constants, and only choose inputs: they judge nothing.

var (
	seventhRoot = func() *big.Int {
		order := new(big.Int).Sub(fr.Modulus(), big.NewInt(1))
		return new(big.Int).ModInverse(big.NewInt(7), order)
	}()
	inverseMDS = map[int][][]fr.Element{}
)

func unSBox(x *fr.Element) { *x = *new(fr.Element).Exp(*x, seventhRoot) }

func init() {
	// consts.go has been initialised: the files of a package are initialised in the order of their names
	for _, t := range []int{2, 4, 8} {
		m := make([][]fr.Element, t) // [MDS | identity]
		for i := range m {
			m[i] = make([]fr.Element, 2*t)
			for j := 0; j < t; j++ {
				m[i][j].Add(&xArr[i], &yArr[j])
				m[i][j].Inverse(&m[i][j])
			}
			m[i][t+i].SetOne()
		}
		for c := range m {
			// never 0: all minors of a Cauchy matrix are invertible
			var inv fr.Element
			inv.Inverse(&m[c][c])
			for j := range m[c] {
				m[c][j].Mul(&m[c][j], &inv)
			}
			for i := range m {
				if i == c {
					continue
				}
				f := m[i][c]
				for j := range m[i] {
					var x fr.Element
					x.Mul(&f, &m[c][j])
					m[i][j].Sub(&m[i][j], &x)
				}
			}
		}
		for i := range m {
			m[i] = m[i][t:]
		}
		inverseMDS[t] = m
	}
}

// nbRounds of a permutation
func nbRounds(alg string, t int) int {
	if alg == "poseidon" {
		return map[int]int{2: 98, 4: 99, 8: 100}[t]
	}
	return 91
}

// cornered returns a state such that, with these keys, S-boxes of the given round receive special values
func (r *R) cornered(alg string, keys []fr.Element, round int) []fr.Element {
	t := len(keys)
	s := r.vec(t, vsRandom)
	corner := []fr.Element{fint(0), fint(0), fint(1), fint(-1)}
	if r.Intn(4) == 0 {
		for i := range s {
			s[i] = corner[r.Intn(4)]
		}
	} else {
		s[r.pick(0, 0, t-1)] = corner[r.Intn(4)]
	}
	full := nbRounds(alg, t) - 8
	for i := round; ; i-- {
		for j := range s {
			s[j].Sub(&s[j], &keys[j])
			s[j].Sub(&s[j], &arks[i])
		}
		if i == 0 {
			return s
		}
		if alg == "poseidon" {
			u := make([]fr.Element, t)
			for a, row := range inverseMDS[t] {
				for b := range row {
					var x fr.Element
					x.Mul(&row[b], &s[b])
					u[a].Add(&u[a], &x)
				}
			}
			s = u
			unSBox(&s[0])
			if i-1 < 8 || i-1 >= full {
				for j := 1; j < t; j++ {
					unSBox(&s[j])
				}
			}
		} else {
			s = append([]fr.Element{s[t-1]}, s[:t-1]...)
			unSBox(&s[0])
		}
	}
}

// mimcInputs are inputs of the MiMC circuit, instances of which may have an S-box that receives a special value
func (r *R) mimcInputs(bN int) []fr.Element {
	n := 1 << uint(bN)
	in := r.vec(2*n, r.style())
	if r.Intn(3) == 0 {
		r.cornerMimc(in[:n], in[n:])
		for h := 0; h < n; h++ {
			in[h].Add(&in[h], &in[n+h])
		}
	}
	return in
}

// cornerMimc makes some of the instances have an S-box that receives a special value
func (r *R) cornerMimc(states, keys []fr.Element) {
	for h := range keys {
		if r.Intn(2) == 0 {
			states[h] = r.cornered("mimc", keys[h:h+1], r.pick(0, 0, 1, 90, r.Intn(91)))[0]
		}
	}
}

// cornerBlock returns a block that makes S-boxes of the first round receive special values in that state
func (r *R) cornerBlock(state []fr.Element) []fr.Element {
	b := r.vec(len(state), vsRandom)
	for j := range b {
		if j == 0 || r.Intn(2) == 0 {
			b[j] = fint([]int64{0, 0, 1, -1}[r.Intn(4)])
			b[j].Sub(&b[j], &state[j])
			b[j].Sub(&b[j], &arks[0])
		}
	}
	return b
}
