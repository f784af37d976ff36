package main

import (
	"bufio"
	"encoding/json"
	"os"
)

// SpecNets reads the networks TLC enumerated.
func (t *T) SpecNets() []Net {
	var out []Net
	t.specLines(func(b []byte) {
		var n Net
		if err := json.Unmarshal(b, &n); err != nil {
			panic(err)
		}
		out = append(out, n.prune())
		t.Case("network enumerated by TLC", "")
	})
	return out
}

// FitNets are those the specification can also evaluate.
func (t *T) FitNets() (out []Net) {
	for _, n := range t.SpecNets() {
		if n.fits() {
			out = append(out, n)
		}
	}
	return
}

func (t *T) specLines(f func([]byte)) {
	if t.In == "" {
		return
	}
	fd, err := os.Open(t.In)
	if err != nil {
		panic(err)
	}
	defer fd.Close()
	sc := bufio.NewScanner(fd)
	sc.Buffer(make([]byte, 1<<20), 1<<26)
	for sc.Scan() {
		if len(sc.Bytes()) > 0 {
			f(sc.Bytes())
		}
	}
}
