package main

import (
	"encoding/json"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/RenatoGeh/gospn/app"
	"github.com/RenatoGeh/gospn/io"
	"github.com/RenatoGeh/gospn/learn"
	"github.com/RenatoGeh/gospn/spn"
	"github.com/RenatoGeh/gospn/sys"
)

func init() { drivers["C29"] = driveC29 }

// dataFile writes complete rows as a data file.
func dataFile(path string, rows [][]int, card []int) {
	var b strings.Builder
	for i, c := range card {
		fmt.Fprintf(&b, "var %d %d\n", i, c)
	}
	for _, r := range rows {
		s := strings.Trim(fmt.Sprint(r), "[]")
		b.WriteString(s + "\n")
	}
	if err := os.WriteFile(path, []byte(b.String()), 0644); err != nil {
		panic(err)
	}
}

// fullRows gives rows by variable number; -1 where a variable is missing or superfluous.
func fullRows(data []map[int]int, n int) [][]int {
	out := [][]int{}
	for _, m := range data {
		r := make([]int, n)
		for i := range r {
			v, ok := m[i]
			if !ok || len(m) != n {
				v = -1
			}
			r[i] = v
		}
		out = append(out, r)
	}
	return out
}

// inDir runs f in a fresh directory.
func (t *T) inDir(i int, f func(dir string)) {
	dir := filepath.Join(t.Dir, fmt.Sprintf("app%d", i))
	os.MkdirAll(dir, 0755)
	if err := os.Chdir(dir); err != nil {
		panic(err)
	}
	f(dir)
	os.Chdir(t.Dir)
	os.RemoveAll(dir)
}

func (t *T) appNet(n, card int, zero bool) Net {
	vs := make([]int, n)
	for i := range vs {
		vs[i] = i
	}
	leaf := "mult"
	if zero {
		leaf = ""
	}
	return GenValid(t.R, netOpts{nvars: n, maxNodes: 14, share: 0.3, varids: vs, card: card, leaf: leaf, norm: t.R.Intn(2) == 0})
}

var correctRe = regexp.MustCompile(`Correct classifications: (-?\d+)/(-?\d+)`)

func (t *T) classifyCase(k int, batch bool) bool {
	n := 2 + t.R.Intn(4) // variables, with the class
	card := 2 + t.R.Intn(2)
	if t.R.Intn(3) == 0 {
		card = 4 + t.R.Intn(3)
	}
	net := t.appNet(n, card, t.R.Intn(4) == 0)
	if t.R.Intn(3) == 0 { // classes that are almost as probable as one another
		net = Net{}
		ch := []int{}
		bits := 4 + t.R.Intn(10)
		for v := 0; v < n; v++ {
			tab := make([]int, card)
			for i := range tab {
				tab[i] = 1 + t.R.Intn(3)
				if v == n-1 {
					tab[i] = 1<<uint(bits) + i + t.R.Intn(3)
				}
			}
			td := 2
			if v == n-1 { // probabilities, so that they differ by little
				td = bits + 2
			}
			net = append(net, NodeSpec{T: "mult", Var: v, Tab: tab, Td: td})
			ch = append(ch, v+1)
		}
		net = append(net, NodeSpec{T: "prod", Ch: ch})
	}
	m := 2 + t.R.Intn(14)
	if t.R.Intn(5) == 0 {
		m = 20 + t.R.Intn(100)
	}
	cards := make([]int, n) // the network may know of more values than there are
	for i := range cards {
		cards[i] = 2 + t.R.Intn(card-1)
	}
	var rows [][]int
	for i := 0; i < m; i++ {
		r := make([]int, n)
		for j := range r {
			r[j] = t.R.Intn(cards[j])
		}
		rows = append(rows, r)
	}
	p10 := 1 + t.R.Intn(9)
	p := float64(p10) / 10
	seed := int64(t.R.Intn(5)) - 1
	t.Case("classification", fmt.Sprint(net.Key(), rows))
	t.Emit(Ev{"op": "case", "n": n, "ncls": cards[n-1], "p10": p10, "nets": []interface{}{net.JSON()}, "rows": rows})
	ok := true
	t.inDir(k, func(dir string) {
		os.MkdirAll("data/ds/compiled", 0755)
		path := filepath.Join(dir, "data/ds/compiled/all.data")
		dataFile(path, rows, cards)
		nodes := net.Build()
		root := nodes[len(nodes)-1]
		if t.R.Intn(3) == 0 { // values too small for a float64 outside log space
			for i := 0; i < 2; i++ {
				s := spn.NewSum()
				s.AddChildW(root, math.Ldexp(1, -1000))
				root = s
			}
		}
		var trains [][][]int
		nv := 0
		lf := func(sc map[int]*learn.Variable, d spn.Dataset) spn.SPN {
			trains = append(trains, fullRows(d, n))
			nv = len(sc)
			return root
		}
		if !batch {
			e := Ev{"op": "classify"}
			var a, b int
			e["err"] = Call(func() { a, b = app.ImgClassify(lf, path, p, seed) })
			e["corrects"], e["total"], e["learned"], e["vars"] = a, b, len(trains), nv
			e["train"] = [][]int{}
			if len(trains) > 0 {
				e["train"] = trains[0]
			}
			t.Emit(e)
			ok = !Hung(e["err"].(string))
			return
		}
		it := 1 + t.R.Intn(3)
		old := os.Stdout
		f, err := os.Create(filepath.Join(dir, "stdout"))
		if err != nil {
			panic(err)
		}
		os.Stdout = f
		e := Ev{"op": "batch", "iters": it}
		e["err"] = Call(func() { app.ImgBatchClassify(lf, "ds", p, seed, -1, it) })
		os.Stdout = old
		f.Close()
		b, _ := os.ReadFile(filepath.Join(dir, "stdout"))
		res := [][2]int{}
		for _, x := range correctRe.FindAllStringSubmatch(string(b), -1) {
			u, _ := strconv.Atoi(x[1])
			v, _ := strconv.Atoi(x[2])
			res = append(res, [2]int{u, v})
		}
		e["results"], e["trains"] = res, trains
		t.Emit(e)
		ok = !Hung(e["err"].(string))
	})
	return ok
}

func rowsKey(rows [][]int) string {
	var s []string
	for _, r := range rows {
		s = append(s, fmt.Sprint(r))
	}
	sort.Strings(s)
	return strings.Join(s, ";")
}

func imgRows(t *T, n, px, max int) [][]int {
	rows := make([][]int, n)
	for i := range rows {
		rows[i] = make([]int, px)
		for j := range rows[i] {
			rows[i][j] = t.R.Intn(max)
		}
	}
	return rows
}

func withLabel(rows [][]int, labs []int) (out [][]int) {
	for i, r := range rows {
		out = append(out, append(append([]int{}, r...), labs[i]))
	}
	return
}

func (t *T) completeCase(k int, labs []int, p int) bool {
	max := 2 + t.R.Intn(2)
	w, h := 1+t.R.Intn(3), 1+t.R.Intn(3)
	if w*h > 6 {
		h = 2
	}
	n, px := len(labs), w*h
	ncls := 2
	for _, x := range labs {
		if x >= ncls {
			ncls = x + 1
		}
	}
	rows := imgRows(t, n, px, max)
	// one network per training set
	var nets []Net
	netOf := make([]int, n)
	byKey := map[string]int{}
	for i := range rows {
		var tr [][]int
		for j := range rows {
			if labs[j] != labs[i] {
				tr = append(tr, rows[j])
			}
		}
		key := rowsKey(tr)
		if _, ok := byKey[key]; !ok {
			nets = append(nets, t.appNet(px, max, t.R.Intn(4) == 0))
			byKey[key] = len(nets)
		}
		netOf[i] = byKey[key]
	}
	var js []interface{}
	for _, x := range nets {
		js = append(js, x.JSON())
	}
	t.Emit(Ev{"op": "case", "nets": js, "netof": netOf, "rows": rows, "labs": labs, "w": w, "h": h, "max": max, "p": p})
	ok := true
	t.inDir(k, func(dir string) {
		cards := make([]int, px+1)
		for i := range cards {
			cards[i] = max
		}
		cards[px] = ncls
		path := filepath.Join(dir, "all.data")
		dataFile(path, withLabel(rows, labs), cards)
		sys.Width, sys.Height, sys.Max = w, h, max
		var mu sync.Mutex
		runs := [][][]int{}
		now, most, nv := 0, 0, px
		lf := func(sc map[int]*learn.Variable, d spn.Dataset) spn.SPN {
			mu.Lock()
			now++
			if now > most {
				most = now
			}
			if len(sc) != px {
				nv = len(sc)
			}
			tr := fullRows(d, px)
			runs = append(runs, tr)
			at := byKey[rowsKey(tr)]
			mu.Unlock()
			time.Sleep(time.Millisecond)
			for _, m := range d { // the learner may do what it wants with its copy
				for v := range m {
					m[v] = 77
				}
			}
			if at == 0 {
				at = 1
			}
			nodes := nets[at-1].Build()
			mu.Lock()
			now--
			mu.Unlock()
			return nodes[len(nodes)-1]
		}
		err := Call(func() { app.ImgCompletion(lf, path, p) })
		fs, _ := filepath.Glob(filepath.Join(dir, "*.pgm"))
		t.Emit(Ev{"op": "trained", "runs": runs, "most": most, "vars": nv, "files": len(fs), "err": err})
		if err != "" {
			ok = !Hung(err)
			return
		}
		for i := range rows {
			for _, v := range io.Orientations {
				e := Ev{"op": "picture", "i": i + 1, "typ": string(v)}
				e["err"] = Call(func() { e["f"] = netpbm(fmt.Sprintf("cmpl_%d-%s.pgm", i, v)) })
				t.Emit(e)
			}
		}
	})
	return ok
}

func (t *T) ownCase(k int, par int) bool {
	max := 4
	w, h := 2+t.R.Intn(2), 2
	n, px := 3+t.R.Intn(2), w*h
	rows := imgRows(t, n, px, max)
	labs := make([]int, n)
	t.Case("completion with the built-in learner", fmt.Sprint(rows, par))
	t.Emit(Ev{"op": "case", "rows": rows, "w": w, "h": h, "max": max})
	ok := true
	t.inDir(k, func(dir string) {
		cards := make([]int, px+1)
		for i := range cards {
			cards[i] = max
		}
		cards[px] = 2
		path := filepath.Join(dir, "all.data")
		dataFile(path, withLabel(rows, labs), cards)
		sys.Width, sys.Height, sys.Max = w, h, max
		err := Call(func() {
			if par == 0 {
				app.ImgTest(path, 2, 2, 1, 0.1, 1e6)
			} else {
				app.ImgTestParallel(path, 2, 2, 1, 0.1, 1e6, par)
			}
		})
		fs, _ := filepath.Glob(filepath.Join(dir, "*.pgm"))
		t.Emit(Ev{"op": "files", "files": len(fs), "err": err})
		if err != "" {
			ok = !Hung(err)
			return
		}
		var pics [][]Ev
		err = Call(func() {
			for i := range rows {
				var ps []Ev
				for _, q := range io.Quadrants {
					ps = append(ps, Ev{"typ": string(q), "f": netpbm(fmt.Sprintf("cmpl_%s_%d.pgm", q, i))})
				}
				pics = append(pics, ps)
			}
		})
		t.Emit(Ev{"op": "own", "inorder": par == 0, "pics": pics, "err": err})
	})
	return ok
}

func driveC29(t *T) {
	k := 0
	ok := true
	t.specLines(func(b []byte) {
		var c struct {
			Labs []int
			P    int
		}
		if err := json.Unmarshal(b, &c); err != nil {
			panic(err)
		}
		if ok {
			t.Case("completion job enumerated by TLC", "")
			ok = t.completeCase(k, c.Labs, c.P)
			k++
		}
	})
	for i := 0; i < t.Pick(25, 300) && ok; i++ {
		n := 1 + t.R.Intn(9)
		labs := make([]int, n)
		if i%8 == 0 {
			n = 10 + t.R.Intn(12)
			labs = make([]int, n)
		}
		classes := 2 + t.R.Intn(1+n/2)
		for j := range labs {
			labs[j] = t.R.Intn(classes)
		}
		t.Case("random completion job", fmt.Sprint(labs))
		ok = t.completeCase(k, labs, t.R.Intn(6)-1)
		k++
	}
	for i := 0; i < t.Pick(200, 1500) && ok; i++ {
		ok = t.classifyCase(k, i%4 == 3)
		k++
	}
	for i := 0; i < t.Pick(6, 60) && ok; i++ {
		ok = t.ownCase(k, i%3)
		k++
	}
}
