package main

import (
	"encoding/json"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"strings"

	"github.com/RenatoGeh/gospn/learn"
	"github.com/RenatoGeh/gospn/score"
	"github.com/RenatoGeh/gospn/spn"
)

func init() {
	drivers["C13"] = driveC13
}

type scoreWorld struct {
	t  *T
	ss []*score.S
	c  int // size of the confusion matrix
}

func (w *scoreWorld) create() bool {
	return w.t.do(Ev{"op": "create"}, func() { w.ss = append(w.ss, score.NewScore()) })
}

func (w *scoreWorld) op(op string, i, j, e int) bool {
	switch op {
	case "register":
		return w.t.do(Ev{"op": op, "i": i, "p": j, "e": e}, func() { w.ss[i-1].Register(j, e) })
	case "merge":
		return w.t.do(Ev{"op": op, "i": i, "j": j}, func() { w.ss[i-1].Merge(w.ss[j-1]) })
	case "add":
		return w.t.do(Ev{"op": op, "i": i, "j": j}, func() { w.ss = append(w.ss, score.Add(w.ss[i-1], w.ss[j-1])) })
	case "clear":
		return w.t.do(Ev{"op": op, "i": i}, func() { w.ss[i-1].Clear() })
	}
	panic(op)
}

func (w *scoreWorld) show(i int) bool {
	s := w.ss[i-1]
	e := Ev{"op": "show", "i": i, "c": w.c}
	return w.t.do(e, func() {
		e["hits"], e["misses"], e["total"] = s.Hits(), s.Misses(), s.Total()
		e["conf"] = s.ConfusionMatrix(w.c)
	})
}

func (w *scoreWorld) print(i int) bool {
	s := w.ss[i-1]
	e := Ev{"op": "print", "i": i}
	return w.t.do(e, func() {
		txt := s.String()
		f := filepath.Join(w.t.Dir, "score.txt")
		s.Save(f)
		b, _ := os.ReadFile(f)
		os.Remove(f)
		e["file"], e["text"] = strings.TrimSpace(string(b)), strings.TrimSpace(txt)
		var h, m, n, a = -1, -1, -1, 0.0
		wrong := [][2]int{}
		for _, ln := range strings.Split(txt, "\n") {
			var x, y int
			switch {
			case strings.HasPrefix(ln, "Hits:"):
				fmt.Sscanf(ln, "Hits: %d", &h)
			case strings.HasPrefix(ln, "Misses:"):
				fmt.Sscanf(ln, "Misses: %d", &m)
			case strings.HasPrefix(ln, "Total:"):
				fmt.Sscanf(ln, "Total: %d", &n)
			case strings.HasPrefix(ln, "Accuracy:"):
				fmt.Sscanf(ln, "Accuracy: %g", &a)
			default:
				if k, _ := fmt.Sscanf(strings.TrimSpace(ln), "Expected %d, got %d.", &x, &y); k == 2 {
					wrong = append(wrong, [2]int{x, y})
				}
			}
		}
		if math.IsNaN(a) {
			a = 0
		}
		e["hits"], e["misses"], e["total"], e["acc"], e["wrong"] = h, m, n, int(math.Round(a*1e5)), wrong
	})
}

func (w *scoreWorld) look() bool {
	for i := range w.ss {
		if !w.show(i+1) || (w.t.R.Intn(3) == 0 && !w.print(i+1)) {
			return false
		}
	}
	return true
}

func (w *scoreWorld) eval(nw *World, i int, method string, n, k int, unique bool) bool {
	t := w.t
	vars, card := nw.net.Vars()
	v := vars[t.R.Intn(len(vars))]
	D := make(spn.Dataset, n)
	L := make([]int, n)
	for a := range D {
		D[a] = spn.VarSet{}
		p := []float64{1, 1, 0.6}[t.R.Intn(3)]
		for _, x := range vars {
			if t.R.Float64() < p {
				D[a][x] = t.R.Intn(card[x])
			}
		}
		switch t.R.Intn(4) {
		case 0:
			delete(D[a], v)
		case 1:
			D[a][v] = t.R.Intn(card[v] + 1)
		}
		L[a] = a
		if !unique {
			L[a] = t.R.Intn(card[v])
		}
	}
	c := card[v]
	for _, x := range nw.net {
		if x.Var == v && x.T == "mult" && len(x.Tab) > c {
			c = len(x.Tab)
		}
		if x.Var == v && x.T == "ind" && x.Val+1 > c {
			c = x.Val + 1
		}
	}
	if c > w.c || n > w.c && unique {
		return true
	}
	e := Ev{"op": "eval", "i": i, "v": v, "c": card[v], "method": method, "data": dataPairs(D), "labels": append([]int{}, L...), "k": k}
	t.Case(map[int]string{0: "sequential ", 1: "concurrent "}[b2i(k != 99)]+method, "")
	return t.do(e, func() {
		s := w.ss[i-1]
		before := s.ConfusionMatrix(w.c)
		cv := &learn.Variable{Varid: v, Categories: card[v], Name: "label"}
		switch {
		case method == "map":
			s.Evaluate(D, L, nw.root(), cv)
		case k == 99:
			s.EvaluatePosterior(D, L, nw.root(), cv)
		default:
			s.EvaluatePosteriorConc(D, L, nw.root(), cv, k)
		}
		after := s.ConfusionMatrix(w.c)
		delta := [][3]int{}
		for x := range after {
			for y := range after[x] {
				if d := after[x][y] - before[x][y]; d != 0 {
					delta = append(delta, [3]int{y, x, d})
				}
			}
		}
		e["delta"] = delta
		e["dataafter"], e["labelsafter"] = dataPairs(D), L
		e["image"], _ = Snapshot(nw.root())
	})
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func driveC13(t *T) {
	var hs [][][3]interface{}
	t.specLines(func(b []byte) {
		var h [][3]interface{}
		if err := json.Unmarshal(b, &h); err != nil {
			panic(err)
		}
		hs = append(hs, h)
	})
	t.R.Shuffle(len(hs), func(i, j int) { hs[i], hs[j] = hs[j], hs[i] })
	if m := t.Pick(300, 4000); len(hs) > m {
		hs = hs[:m]
	}
	for _, h := range hs {
		t.Case("history enumerated by TLC", fmt.Sprint(h))
		w := &scoreWorld{t: t, c: 2}
		t.Emit(Ev{"op": "case"})
		w.create()
		w.create()
		for _, x := range h {
			if !w.op(x[0].(string), int(x[1].(float64)), int(x[2].(float64)), 0) {
				return
			}
		}
		if !w.look() {
			return
		}
	}
	for i := 0; i < t.Pick(15, 300); i++ { // long histories
		w := &scoreWorld{t: t, c: 4}
		t.Emit(Ev{"op": "case"})
		t.Case("long history", "")
		for j := 0; j < 3; j++ {
			w.create()
		}
		for j := 0; j < 60; j++ {
			a, b := 1+t.R.Intn(len(w.ss)), 1+t.R.Intn(len(w.ss))
			ok := true
			switch r := t.R.Intn(20); {
			case r < 13:
				ok = w.op("register", a, t.R.Intn(4), t.R.Intn(4))
			case r < 15 && w.ss[a-1].Total()+w.ss[b-1].Total() < 200:
				ok = w.op("merge", a, b, 0)
			case r < 18 && len(w.ss) < 12:
				ok = w.op("add", a, b, 0)
			case r == 18 && t.R.Intn(3) == 0:
				ok = w.op("clear", a, 0, 0)
			default:
				ok = w.show(a)
			}
			if !ok {
				return
			}
		}
		if !w.look() {
			return
		}
	}
	for i := 0; i < t.Pick(4, 40); i++ { // many predictions
		w := &scoreWorld{t: t, c: 5}
		t.Emit(Ev{"op": "case"})
		t.Case("many predictions", "")
		w.create()
		w.create()
		ok := true
		for j := 0; ok && j < 60+20*(i%4); j++ {
			ok = w.op("register", 1+t.R.Intn(2), t.R.Intn(5), t.R.Intn(5))
		}
		for j := 0; ok && w.ss[0].Total() < 1100+1000*(i%3); j++ {
			ok = w.op("merge", 1+j%2, 2-j%2, 0)
			if ok && t.R.Intn(3) == 0 {
				ok = w.op("register", 1+t.R.Intn(2), t.R.Intn(5), t.R.Intn(5))
			}
		}
		if !ok || !w.op("add", 1, 2, 0) || !w.op("register", 3, 1, 2) || !w.look() {
			return
		}
	}
	for i := 0; i < t.Pick(150, 1500); i++ { // scores made out of others, and then all of them used
		w := &scoreWorld{t: t, c: 3}
		t.Emit(Ev{"op": "case"})
		t.Case("scores made out of others", "")
		w.create()
		w.create()
		w.create()
		reg := func(a, n int) (ok bool) {
			ok = true
			for ; n > 0 && ok; n-- {
				ok = w.op("register", a, t.R.Intn(3), t.R.Intn(3))
			}
			return
		}
		full, other := 1, 2
		ok := reg(full, 1+t.R.Intn(12)) && reg(3, t.R.Intn(3))
		if t.R.Intn(3) == 0 {
			ok = ok && reg(other, 1+t.R.Intn(5))
		}
		for j := 0; j < 4 && ok; j++ {
			switch t.R.Intn(6) {
			case 0, 1:
				ok = w.op("merge", other, full, 0)
			case 2:
				ok = w.op("add", full, other, 0)
			case 3:
				ok = w.op("add", other, full, 0)
			case 4:
				ok = w.op("clear", []int{full, other}[t.R.Intn(2)], 0, 0)
			case 5:
				full, other = other, full
			}
			for a := range w.ss {
				ok = ok && reg(1+a, t.R.Intn(3)*t.R.Intn(2))
			}
			ok = ok && w.look()
		}
		if !ok {
			return
		}
	}
	for i := 0; i < t.Pick(60, 800); i++ {
		o := netOpts{nvars: 1 + t.R.Intn(4), maxNodes: 3 + t.R.Intn(12), share: 0.4, norm: t.R.Intn(2) == 0, zero: t.R.Intn(4) == 0}
		if t.R.Intn(2) == 0 {
			o.leaf = "mult"
		}
		net := GenValid(t.R, o)
		if t.R.Intn(3) == 0 {
			net = net.spread(t.R)
		}
		nw := newWorld(t, net)
		if nw.dead {
			return
		}
		if i < 2 {
			t.Sample(nw.net)
		}
		w := &scoreWorld{t: t, c: 40}
		w.create()
		w.create()
		for j := 0; j < 4; j++ {
			n := []int{0, 1, 2, 5, 9, 10, 11, 25, 37}[t.R.Intn(9)]
			k := []int{99, -1, 0, 1, 2, 3, 7, 40}[t.R.Intn(8)]
			m := "posterior"
			if t.R.Intn(3) == 0 {
				m, k = "map", 99
			}
			unique := t.R.Intn(3) != 0
			if t.R.Intn(12) == 0 {
				n, unique = 41+t.R.Intn(160), false
				if k != 99 && t.R.Intn(2) == 0 {
					k = []int{n - 1, n, n + 1, 16, 64}[t.R.Intn(5)]
				}
			}
			if !w.eval(nw, 1+t.R.Intn(2), m, n, k, unique) {
				return
			}
		}
		if !w.look() {
			return
		}
	}
}
