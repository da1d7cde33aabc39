// The conformance driver: runs the code of /repo on generated cases and records what it did,
// one JSON object per line, for the trace specifications in /verif/spec.
package main

import (
	"bufio"
	"bytes"
	"flag"
	"fmt"
	"os"
	"runtime/debug"
	"strconv"
	"time"
)

// Env is what a case generator sees
type Env struct {
	R     *R
	Tier  string
	Idx   int
	Seed  int64
	Scen  []J // scenarios produced by TLC, if any
	Emit  func(c J)
	Quick bool
	shape int // number of gates of an instance, 0 for any
}

// Prop generates the cases of a property
type Prop struct {
	Count func(e *Env) int
	Run   func(e *Env)
}

var props = map[string]*Prop{}

func tierCount(q, t int) func(e *Env) int {
	return func(e *Env) int {
		if e.Quick {
			return q
		}
		return t
	}
}

func main() {
	prop := flag.String("prop", "", "property")
	tier := flag.String("tier", "quick", "tier")
	seed := flag.Int64("seed", 1, "seed")
	from := flag.Int("from", 0, "first case")
	only := flag.Int("only", -1, "only this case")
	out := flag.String("out", "", "output file (appended)")
	scen := flag.String("scen", "", "scenario file")
	timeout := flag.Duration("timeout", 150*time.Second, "time a single case may take")
	budget := flag.Duration("budget", 300*time.Second, "stop starting cases after that")
	flag.Parse()

	p := props[*prop]
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *prop)
		os.Exit(2)
	}
	f, err := os.OpenFile(*out, os.O_CREATE|os.O_WRONLY|os.O_APPEND, 0644)
	if err != nil {
		panic(err)
	}
	w := bufio.NewWriterSize(f, 1<<20)
	var scens []J
	if *scen != "" {
		scens = readScen(*scen)
	}
	base := &Env{Tier: *tier, Seed: *seed, Quick: *tier == "quick", Scen: scens}
	n := p.Count(base)
	if *only >= 0 {
		*from, n = *only, *only+1
	}
	start := time.Now()
	for i := *from; i < n; i++ {
		if time.Since(start) > *budget {
			fmt.Printf("TRUNCATED %d of %d\n", i, n)
			break
		}
		if err := os.WriteFile(*out+".cur", []byte(strconv.Itoa(i)), 0644); err != nil {
			panic(err)
		}
		e := *base
		e.Idx = i
		e.R = newR(*seed*1000003 + int64(i)*7919 + int64(hashName(*prop)))
		sub := 0
		e.Emit = func(c J) {
			c["id"] = fmt.Sprintf("%s/%d.%d", *prop, i, sub)
			c["idx"] = i
			sub++
			// what the code left nil is an empty sequence
			w.Write(bytes.ReplaceAll(mustJSON(c), []byte("null"), []byte("[]")))
			w.WriteByte('\n')
		}
		timer := time.AfterFunc(*timeout, func() {
			fmt.Fprintf(os.Stderr, "HANG in case %d\n", i)
			os.Exit(7)
		})
		func() {
			defer func() {
				if x := recover(); x != nil {
					e.Emit(J{"kind": "crash", "what": fmt.Sprint(x), "stack": firstLines(string(debug.Stack()))})
				}
			}()
			p.Run(&e)
		}()
		timer.Stop()
		w.Flush()
	}
	w.Flush()
	f.Close()
	fmt.Println("DONE", n)
}

func firstLines(s string) string {
	if len(s) > 1500 {
		s = s[:1500]
	}
	return s
}

func hashName(s string) uint32 {
	h := uint32(2166136261)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint32(s[i])) * 16777619
	}
	return h % 100000
}

// try runs f and reports a panic instead of propagating it
func try(f func()) (what string) {
	defer func() {
		if x := recover(); x != nil {
			what = fmt.Sprint(x)
			if what == "" {
				what = "panic"
			}
		}
	}()
	f()
	return ""
}
