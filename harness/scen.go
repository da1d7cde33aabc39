package main

import (
	"bufio"
	"encoding/json"
	"os"
)

// readScen reads scenarios written by TLC, one JSON object per line
func readScen(path string) []J {
	f, err := os.Open(path)
	if err != nil {
		panic(err)
	}
	defer f.Close()
	var res []J
	s := bufio.NewScanner(f)
	s.Buffer(make([]byte, 1<<20), 1<<26)
	for s.Scan() {
		var j J
		if err := json.Unmarshal(s.Bytes(), &j); err != nil {
			panic(err)
		}
		res = append(res, j)
	}
	return res
}
