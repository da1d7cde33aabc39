package main

import (
	"fmt"
	"math/big"
	"os"
	"strconv"
	"strings"

	"gkr-mimc/common"
	"gkr-mimc/polynomial"

	"github.com/consensys/gurvy/bn256/fr"
)

func init() {
	props["C22"] = &Prop{Count: tierCount(160, 1600), Run: runC22}
}

// digitsOf returns the digits of a numeral, most significant one first
func digitsOf(s string) []int {
	res := make([]int, len(s))
	for i := range s {
		res[i] = int(s[i] - '0')
	}
	return res
}

func canonical(x fr.Element) []int {
	var b big.Int
	x.ToBigIntRegular(&b)
	return digitsOf(b.String())
}

// numeralJ reads what was printed for one element
func numeralJ(s string) J {
	neg := strings.HasPrefix(s, "-")
	s = strings.TrimPrefix(s, "-")
	if len(s) == 0 || strings.Trim(s, "0123456789") != "" {
		return J{"neg": neg, "digits": []int{}}
	}
	return J{"neg": neg, "digits": digitsOf(s)}
}

// entriesOf separates the entries of a printed list
func entriesOf(s string) []string {
	if i := strings.IndexByte(s, '='); i >= 0 {
		s = s[i+1:]
	}
	return strings.FieldsFunc(s, func(c rune) bool { return c == '[' || c == ']' || c == ',' || c == ' ' })
}

// special returns elements whose printed form is at the limit between two lengths, or any
func (r *R) special() fr.Element {
	pow := new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(r.Intn(77))), nil)
	pow.Add(pow, big.NewInt(int64(r.Intn(3)-1)))
	half := new(big.Int).Rsh(modulus, 1)
	half.Add(half, big.NewInt(int64(r.Intn(3)-1)))
	var x fr.Element
	switch r.Intn(6) {
	case 0, 1:
		x.SetBigInt(pow)
	case 2:
		x.SetBigInt(new(big.Int).Sub(modulus, pow))
	case 3:
		x.SetBigInt(half)
	case 4:
		x = r.val()
	default:
		x = r.elt()
	}
	return x
}

// called returns what f returned, or that it panicked
func called(f func() int) (v int, panics bool) {
	defer func() {
		if recover() != nil {
			v, panics = 0, true
		}
	}()
	return f(), false
}

func runC22(e *Env) {
	r := e.R
	switch e.Idx % 8 {
	case 0, 1: // logarithms
		as := []int{}
		switch k := e.Idx / 8; {
		case k < 8: // all of the small numbers
			for a := 1 + 512*k + 256*(e.Idx%8); len(as) < 256; a++ {
				as = append(as, a)
			}
		default: // around the powers of two, and any
			for b := uint(1); b < 62; b++ {
				as = append(as, 1<<b-1, 1<<b, 1<<b+1, 1<<b+int(r.Int63()&(1<<b-1)))
			}
		}
		of := []J{}
		for _, a := range as {
			of = append(of, J{"bits": digitsOf(strconv.FormatInt(int64(a), 2)), "floor": common.Log2Floor(a), "ceil": common.Log2Ceil(a)})
		}
		e.Emit(J{"kind": "logs", "of": of, "note": fmt.Sprintf("from %d to %d", as[0], as[len(as)-1])})
	case 2: // minimum and maximum
		of := []J{}
		for k := 0; k < 60; k++ {
			a, b := r.Intn(1<<30)-1<<29, r.Intn(1<<30)-1<<29
			switch r.Intn(4) {
			case 0:
				a, b = r.Intn(9)-4, r.Intn(9)-4
			case 1:
				b = a + r.Intn(3) - 1
			}
			of = append(of, J{"a": a, "b": b, "min": common.Min(a, b), "max": common.Max(a, b)})
		}
		e.Emit(J{"kind": "minmax", "of": of, "note": "60 pairs"})
	case 3, 4: // printed elements
		n := 40
		xs := make([]fr.Element, n)
		of := []J{}
		for k := range xs {
			xs[k] = r.special()
			if e.Idx < 8 && k < 22 {
				xs[k] = fint(int64(k - 11))
			}
			var opp fr.Element
			opp.Neg(&xs[k])
			of = append(of, J{"x": F(xs[k]), "own": canonical(xs[k]), "opp": canonical(opp), "printed": numeralJ(common.PrettyStringFr(xs[k]))})
		}
		lists := []J{}
		for k := 0; k < 6; k++ {
			which, vs := []int{}, []fr.Element{}
			for len(which) < k {
				i := r.Intn(n)
				which, vs = append(which, i+1), append(vs, xs[i])
			}
			s := common.FrSliceToString(vs)
			if k%2 == 1 {
				b := polynomial.NewBookKeepingTable(vs)
				s = b.String()
			}
			entries := []J{}
			for _, t := range entriesOf(s) {
				entries = append(entries, numeralJ(t))
			}
			lists = append(lists, J{"which": which, "entries": entries})
		}
		e.Emit(J{"kind": "print", "of": of, "lists": lists, "after": Fs1(cp1(xs)), "note": fmt.Sprintf("%d elements", n)})
	case 5: // printed lists of integers
		lists := []J{}
		for k := 0; k < 12; k++ {
			us, is, vals := []uint{}, []int{}, []int{}
			for len(vals) < k/2 {
				v := r.Intn(1 << 30)
				if k%2 == 1 {
					v -= 1 << 29
				}
				us, is, vals = append(us, uint(v)), append(is, v), append(vals, v)
			}
			s := common.UintSliceToString(us)
			if k%2 == 1 {
				s = common.IntSliceToString(is)
			}
			printed := []int{}
			for _, t := range entriesOf(s) {
				v, err := strconv.Atoi(t)
				if err != nil {
					v = 1<<30 + 1
				}
				printed = append(printed, v)
			}
			lists = append(lists, J{"values": vals, "printed": printed})
		}
		e.Emit(J{"kind": "ints", "lists": lists, "note": "12 lists"})
	case 6: // conversions
		of := []J{}
		for k := 0; k < 40; k++ {
			u := r.Uint64() >> uint(r.Intn(64))
			switch r.Intn(3) {
			case 0:
				u = 1<<uint(r.Intn(64)) + uint64(r.Intn(3)) - 1
			case 1:
				u = ^uint64(0) - uint64(r.Intn(3))
			}
			of = append(of, J{"digits": digitsOf(strconv.FormatUint(u, 10)), "x": F(common.Uint64ToFr(u))})
		}
		vals := r.vec(r.Intn(30), r.style())
		arg := cp1(vals)
		generic := make([]fr.Element, 0)
		for _, g := range common.FrToGenericArray(arg) {
			x, ok := g.(fr.Element)
			if !ok {
				x = r.elt()
			}
			generic = append(generic, x)
		}
		random, drawn := []J{}, []fr.Element{}
		for k := 0; k < 4; k++ {
			chunks, size := r.Intn(5), r.Intn(9)
			got := []int{}
			if k == 0 {
				chunks, size = 1, r.Intn(30)
				a := common.RandomFrArray(size)
				got, drawn = append(got, len(a)), append(drawn, a...)
			} else {
				for _, a := range common.RandomFrDoubleSlice(chunks, size) {
					got, drawn = append(got, len(a)), append(drawn, a...)
				}
			}
			random = append(random, J{"chunks": chunks, "size": size, "got": got})
		}
		e.Emit(J{"kind": "convert", "of": of, "values": Fs1(vals), "generic": Fs1(generic), "random": random, "drawn": Fs1(drawn),
			"note": fmt.Sprintf("40 integers, %d elements", len(vals))})
	default:
		e.Emit(J{"kind": "env", "of": r.params(), "note": "parameters"})
	}
}

// params sets the parameters of the benchmarks and reads them
func (r *R) params() []J {
	numbers := []struct {
		name string
		get  func() int
	}{{"BN_GKR", common.GetBN}, {"NCHUNKS_GKR", common.GetNChunks}, {"NPROCESSES_ENV", common.GetNProcesses}}
	switches := []struct {
		name string
		get  func() bool
	}{{"PROFILE_GKR", common.GetProfiled}, {"TRACE_GKR", common.GetTraced}}
	words := []string{"0", "1", "2", "12", "007", "1024", "-3", "+5", "-0", "", "one", "1.5", "0x10", "1e3", "7 ", " 7", "1_000", "--1", "+", "-", "true", "12a", "11"}
	values := map[string]string{}
	of := []J{}
	for _, n := range numbers {
		os.Unsetenv(n.name)
	}
	for _, s := range switches {
		os.Unsetenv(s.name)
	}
	for k := 0; k < 30; k++ {
		// one parameter changes, then all are read
		i := r.Intn(len(numbers) + len(switches))
		name := ""
		if i < len(numbers) {
			name = numbers[i].name
		} else {
			name = switches[i-len(numbers)].name
		}
		if r.Intn(8) == 0 {
			os.Unsetenv(name)
			delete(values, name)
		} else {
			w := words[r.Intn(len(words))]
			switch {
			case i >= len(numbers) && r.Intn(2) == 0:
				w = "1"
			case r.Intn(3) == 0:
				w = strconv.Itoa(r.Intn(1 << 20))
			}
			os.Setenv(name, w)
			values[name] = w
		}
		for _, n := range numbers {
			w, set := values[n.name]
			v, panics := called(n.get)
			of = append(of, J{"name": n.name, "switch": false, "set": set, "chars": strings.Split(w, ""), "value": v, "panics": panics})
		}
		for _, s := range switches {
			w, set := values[s.name]
			on := false
			_, panics := called(func() int { on = s.get(); return 0 })
			of = append(of, J{"name": s.name, "switch": true, "set": set, "chars": strings.Split(w, ""), "on": on, "panics": panics})
		}
	}
	return of
}
