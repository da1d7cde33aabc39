package main

import (
	"encoding/json"
	"math/big"
	"math/rand"
	"strconv"

	"github.com/consensys/gurvy/bn256/fr"
)

// F is a field element written as 20 little-endian limbs of 13 bits (see spec/Fr.tla)
type F fr.Element

func appendF(b []byte, e fr.Element) []byte {
	r := e.ToRegular()
	b = append(b, '[')
	for i := 0; i < 20; i++ {
		bit := i * 13
		w, off := bit>>6, uint(bit&63)
		v := r[w] >> off
		if off+13 > 64 && w+1 < 4 {
			v |= r[w+1] << (64 - off)
		}
		if i > 0 {
			b = append(b, ',')
		}
		b = strconv.AppendUint(b, v&8191, 10)
	}
	return append(b, ']')
}

// MarshalJSON writes the limbs
func (f F) MarshalJSON() ([]byte, error) { return appendF(nil, fr.Element(f)), nil }

// Fs1 is a vector of field elements
type Fs1 []fr.Element

// MarshalJSON writes a vector
func (f Fs1) MarshalJSON() ([]byte, error) {
	b := []byte{'['}
	for i := range f {
		if i > 0 {
			b = append(b, ',')
		}
		b = appendF(b, f[i])
	}
	return append(b, ']'), nil
}

func fs2(x [][]fr.Element) []Fs1 {
	res := make([]Fs1, len(x))
	for i := range x {
		res[i] = Fs1(x[i])
	}
	return res
}

func fs3(x [][][]fr.Element) [][]Fs1 {
	res := make([][]Fs1, len(x))
	for i := range x {
		res[i] = fs2(x[i])
	}
	return res
}

// J is a JSON object
type J map[string]interface{}

func mustJSON(x interface{}) []byte {
	b, err := json.Marshal(x)
	if err != nil {
		panic(err)
	}
	return b
}

var modulus, _ = new(big.Int).SetString("21888242871839275222246405745257275088548364400416034343698204186575808495617", 10)

// R is the source of every random choice of a case
type R struct{ *rand.Rand }

func newR(seed int64) *R { return &R{rand.New(rand.NewSource(seed))} }

func (r *R) elt() fr.Element {
	if r.Intn(8) == 0 {
		return r.limb()
	}
	var e fr.Element
	b := new(big.Int).Rand(r.Rand, modulus)
	e.SetBigInt(b)
	return e
}

// limb returns an element of whose representation in memory a single word is not null
func (r *R) limb() fr.Element {
	var e fr.Element
	e[r.Intn(4)] = 1 << uint(r.Intn(60))
	return e
}

func fint(i int64) fr.Element {
	var e fr.Element
	if i < 0 {
		e.SetUint64(uint64(-i))
		e.Neg(&e)
	} else {
		e.SetUint64(uint64(i))
	}
	return e
}

// val mixes special and random values
func (r *R) val() fr.Element {
	switch r.Intn(12) {
	case 10, 11:
		return r.limb()
	case 0:
		return fint(0)
	case 1:
		return fint(1)
	case 2:
		return fint(-1)
	case 3:
		return fint(int64(r.Intn(9)) - 3)
	default:
		return r.elt()
	}
}

const (
	vsMixed = iota
	vsRandom
	vsZero
	vsSmall
	vsConst
	vsSparse
	vsPeriodic // repeats itself, or its opposite: halves that are equal or cancel
	vsWires    // a few entries, of the same weight
	nbStyles
)

// vec returns n values; style chooses the distribution
func (r *R) vec(n, style int) []fr.Element {
	res := make([]fr.Element, n)
	c := r.val()
	if style == vsPeriodic {
		p, q := 1<<uint(r.Intn(4)), 1<<uint(r.Intn(3))
		base := r.vec(p, r.pick(vsMixed, vsRandom, vsSparse, vsSmall))
		alt := r.Intn(3) == 0
		for i := range res {
			res[i] = base[i/q%p]
			if alt && i/(q*p)%2 == 1 {
				res[i].Neg(&res[i])
			}
		}
		return res
	}
	for i := range res {
		switch style {
		case vsWires:
			if r.Intn(3) == 0 {
				res[i] = c
			}
		case vsMixed:
			res[i] = r.val()
		case vsRandom:
			res[i] = r.elt()
		case vsZero:
		case vsSmall:
			res[i] = fint(int64(r.Intn(7)))
		case vsConst:
			res[i] = c
		case vsSparse:
			if r.Intn(4) == 0 {
				res[i] = r.elt()
			}
		}
	}
	return res
}

func (r *R) style() int {
	switch r.Intn(9) {
	case 8:
		return vsPeriodic
	case 0:
		return vsZero
	case 1:
		return vsSmall
	case 2:
		return vsConst
	case 3:
		return vsSparse
	case 4, 5:
		return vsRandom
	}
	return vsMixed
}

func (r *R) pick(xs ...int) int { return xs[r.Intn(len(xs))] }

func cp1(x []fr.Element) []fr.Element { return append([]fr.Element{}, x...) }
func cp2(x [][]fr.Element) [][]fr.Element {
	res := make([][]fr.Element, len(x))
	for i := range x {
		res[i] = cp1(x[i])
	}
	return res
}
func cp3(x [][][]fr.Element) [][][]fr.Element {
	res := make([][][]fr.Element, len(x))
	for i := range x {
		res[i] = cp2(x[i])
	}
	return res
}
func eq1(a, b []fr.Element) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}
func eq2(a, b [][]fr.Element) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !eq1(a[i], b[i]) {
			return false
		}
	}
	return true
}

func log2(n int) int {
	k := 0
	for 1<<uint(k) < n {
		k++
	}
	return k
}

// chunked splits a plain table into interleaved chunks
func chunked(t []fr.Element, n int) [][]fr.Element {
	res := make([][]fr.Element, n)
	for i, x := range t {
		res[i%n] = append(res[i%n], x)
	}
	return res
}
func unchunk(c [][]fr.Element) []fr.Element {
	n := len(c)
	res := make([]fr.Element, n*len(c[0]))
	for i := range res {
		res[i] = c[i%n][i/n]
	}
	return res
}

// like returns a vector that has something in common with a: most branches on two values are about that
func (r *R) like(a []fr.Element) []fr.Element {
	n := len(a)
	b := r.vec(n, vsMixed)
	if n == 0 {
		return b
	}
	k := r.Intn(n + 1)
	switch r.Intn(9) {
	case 0:
		copy(b, a) // equal
	case 1:
		copy(b[:k], a[:k])
	case 2:
		copy(b[k:], a[k:])
	case 3:
		b[r.Intn(n)] = a[r.Intn(n)]
	case 4: // all but one
		k = r.Intn(n)
		x := b[k]
		copy(b, a)
		b[k] = x
	case 5:
		for i, j := range r.Perm(n) {
			b[i] = a[j]
		}
	case 6:
		for i := range b {
			b[i].Neg(&a[i])
		}
	case 7:
		for i := range b {
			b[i].SetOne()
			b[i].Sub(&b[i], &a[i])
		}
	case 8:
		for i := range b {
			b[i].Inverse(&a[i])
		}
	}
	return b
}

// pair returns two vectors, with or without something in common
func (r *R) pair(n, style int) ([]fr.Element, []fr.Element) {
	a := r.vec(n, style)
	if r.Intn(2) == 0 {
		return a, r.like(a)
	}
	return a, r.vec(n, style)
}

// cat is two vectors as one
func cat(a, b []fr.Element) []fr.Element { return append(cp1(a), b...) }
