package main

import (
	"encoding/json"
	"fmt"

	"github.com/RenatoGeh/gospn/utils"
	"github.com/RenatoGeh/gospn/utils/indep"
)

func init() {
	drivers["C18"] = driveC18
}

var levels = []float64{0.0001, 0.001, 0.01, 0.05, 0.1, 0.5}

type ufWorld struct {
	t     *T
	nodes []*utils.UFNode
}

func (w *ufWorld) id(n *utils.UFNode) int {
	for i, m := range w.nodes {
		if m == n {
			return i + 1
		}
	}
	return 0
}

func (w *ufWorld) make() bool {
	x := len(w.nodes) + 1
	e := Ev{"op": "make", "x": x}
	return w.t.do(e, func() {
		n := utils.MakeSet(x)
		w.nodes = append(w.nodes, n)
		e["varids"] = utils.UFVarids(n)
		e["find"] = w.id(utils.Find(n))
	})
}

func (w *ufWorld) union(x, y int) bool {
	e := Ev{"op": "union", "x": x, "y": y}
	return w.t.do(e, func() {
		n, k := utils.Union(w.nodes[x-1], w.nodes[y-1])
		e["r"], e["w"] = w.id(n), k
	})
}

func (w *ufWorld) find(x int) bool {
	e := Ev{"op": "find", "x": x}
	return w.t.do(e, func() { e["r"] = w.id(utils.Find(w.nodes[x-1])) })
}

func (w *ufWorld) varids(x int) bool {
	e := Ev{"op": "varids", "x": x}
	return w.t.do(e, func() { e["ids"] = utils.UFVarids(utils.Find(w.nodes[x-1])) })
}

func (t *T) ufCase(n int, hist [][2]int, looks bool) bool {
	w := &ufWorld{t: t}
	t.Emit(Ev{"op": "case"})
	for i := 0; i < n; i++ {
		if !w.make() {
			return false
		}
	}
	for _, h := range hist {
		if !w.union(h[0], h[1]) {
			return false
		}
		if looks && t.R.Intn(3) == 0 && !(w.find(1+t.R.Intn(n)) && w.varids(1+t.R.Intn(n))) {
			return false
		}
	}
	for i := 1; i <= n; i++ {
		if !w.find(i) || !w.varids(i) {
			return false
		}
	}
	return true
}

func withTotals(tab [][]int) [][]int {
	p, q := len(tab), len(tab[0])
	m := make([][]int, p+1)
	for i := range m {
		m[i] = make([]int, q+1)
	}
	for i := range tab {
		for j, o := range tab[i] {
			m[i][j] = o
			m[i][q] += o
			m[p][j] += o
			m[p][q] += o
		}
	}
	return m
}

func (t *T) tableCase(tab [][]int, lv int) bool {
	t.Case("contingency table", fmt.Sprint(tab, lv))
	p, q := len(tab), len(tab[0])
	m := withTotals(tab)
	keep := fmt.Sprint(m)
	e := Ev{"op": "gtest", "t": tab, "level": lv + 1}
	if !t.do(e, func() {
		e["r"] = indep.GTest(p, q, m, t.R.Intn(9), levels[lv])
		e["kept"] = keep == fmt.Sprint(m)
	}) {
		return false
	}
	e = Ev{"op": "chisq", "t": tab, "level": lv + 1}
	return t.do(e, func() {
		e["r"] = indep.ChiSquareTest(p, q, m, levels[lv])
		e["kept"] = keep == fmt.Sprint(m)
	})
}

// scaledCase tests a table taken times over: the statistic is as many times larger.
func (t *T) scaledCase(tab [][]int, times, lv int) bool {
	t.Case("contingency table of many instances", fmt.Sprint(tab, times, lv))
	p, q := len(tab), len(tab[0])
	big := make([][]int, p)
	for i := range tab {
		big[i] = make([]int, q)
		for j := range tab[i] {
			big[i][j] = tab[i][j] * times
		}
	}
	m := withTotals(big)
	e := Ev{"op": "gtimes", "t": tab, "times": times, "level": lv + 1}
	if !t.do(e, func() { e["r"] = indep.GTest(p, q, m, 1, levels[lv]) }) {
		return false
	}
	e = Ev{"op": "ptimes", "t": tab, "times": times, "level": lv + 1}
	return t.do(e, func() { e["r"] = indep.ChiSquareTest(p, q, m, levels[lv]) })
}

func (t *T) groupCase(n, m int) bool {
	vds := make([]*utils.VarData, n)
	perm := t.R.Perm(3*n + 1)
	if t.R.Intn(4) == 0 {
		for i := range perm {
			perm[i] = perm[i]*1000 + t.R.Intn(1000)
		}
	}
	hidden := make([][]int, 1+t.R.Intn(3))
	for h := range hidden {
		hidden[h] = make([]int, m)
		for k := range hidden[h] {
			hidden[h][k] = t.R.Intn(12)
		}
	}
	out := []Ev{}
	for i := range vds {
		cats := 1 + t.R.Intn(4)
		if t.R.Intn(10) == 0 {
			cats = 5 + t.R.Intn(11)
		}
		d := make([]int, m)
		h := hidden[t.R.Intn(len(hidden))]
		noise := t.R.Intn(5)
		for k := range d {
			if t.R.Intn(5) < noise {
				d[k] = t.R.Intn(cats)
			} else {
				d[k] = h[k] % cats
			}
		}
		vds[i] = utils.NewVarData(perm[i], cats, d)
		out = append(out, Ev{"id": perm[i], "cats": cats, "data": append([]int{}, d...)})
	}
	lv := t.R.Intn(len(levels))
	for _, uf := range []bool{true, false} {
		e := Ev{"op": "groups", "vars": out, "level": lv + 1}
		if !t.do(e, func() {
			var g *indep.Graph
			if uf {
				g = indep.NewUFIndepGraph(vds, levels[lv])
			} else {
				g = indep.NewIndepGraph(vds, levels[lv])
			}
			e["groups"] = g.Kset
			kept := true
			for i, v := range vds {
				kept = kept && v.Varid == perm[i] && fmt.Sprint(v.Data) == fmt.Sprint(out[i]["data"]) && v.Categories == out[i]["cats"]
			}
			e["kept"] = kept
		}) {
			return false
		}
	}
	t.Case("independence graph", fmt.Sprint(out, lv))
	return true
}

func driveC18(t *T) {
	ok := true
	t.specLines(func(b []byte) {
		if !ok {
			return
		}
		var c struct {
			Tab  [][]int  `json:"tab"`
			Hist [][2]int `json:"hist"`
		}
		if err := json.Unmarshal(b, &c); err != nil {
			panic(err)
		}
		t.Sample(c)
		if len(c.Tab) > 0 {
			t.Case("table enumerated by TLC", "")
			ok = t.tableCase(c.Tab, t.R.Intn(len(levels)))
		} else if t.Thorough || t.R.Intn(6) == 0 {
			t.Case("union history enumerated by TLC", "")
			ok = t.ufCase(4, c.Hist, true)
		}
	})
	for i := 0; ok && i < t.Pick(40, 400); i++ {
		n := 2 + t.R.Intn(20)
		h := make([][2]int, t.R.Intn(2*n))
		for j := range h {
			h[j] = [2]int{1 + t.R.Intn(n), 1 + t.R.Intn(n)}
		}
		t.Case("union history", fmt.Sprint(n, h))
		ok = t.ufCase(n, h, true)
	}
	for i := 0; ok && i < t.Pick(6, 40); i++ { // high and broad trees
		n := 40 + t.R.Intn(100)
		var h [][2]int
		if i%2 == 0 { // sets of the same size
			p := t.R.Perm(n)
			for d := 1; d < n; d *= 2 {
				for a := 0; a+d < n; a += 2 * d {
					h = append(h, [2]int{1 + p[a+t.R.Intn(d)], 1 + p[a+d]})
				}
			}
		} else { // a few sets that take in one after the other
			for a := 0; a < n; a++ {
				x, y := 1+a%(1+i/2), 1+a
				if t.R.Intn(2) == 0 {
					x, y = y, x
				}
				h = append(h, [2]int{x, y})
			}
		}
		t.Case("union history", fmt.Sprint(n, h))
		ok = t.ufCase(n, h, true)
	}
	for i := 0; ok && i < t.Pick(300, 4000); i++ {
		p, q, most := 1+t.R.Intn(5), 1+t.R.Intn(5), 200
		switch t.R.Intn(8) {
		case 0:
			p, q, most = 1+t.R.Intn(16), 1+t.R.Intn(16), 900
		case 1:
			most = 1000
		}
		tab := make([][]int, p)
		bias := t.R.Intn(3)
		n := 0
		top := []int{2, 5, most / (p * q)}[t.R.Intn(3)]
		for a := range tab {
			tab[a] = make([]int, q)
			for b := range tab[a] {
				tab[a][b] = t.R.Intn(top + 1)
				if bias == 1 && a != b {
					tab[a][b] /= 3
				} else if bias == 2 && t.R.Intn(3) > 0 {
					tab[a][b] = 0
				}
				n += tab[a][b]
			}
		}
		if n == 0 {
			tab[0][0] = 1
		}
		ok = t.tableCase(tab, t.R.Intn(len(levels)))
	}
	for i := 0; ok && i < t.Pick(60, 600); i++ { // most instances alike, some rare
		n := 2 + t.R.Intn(4)
		tab := make([][]int, n)
		for a := range tab {
			tab[a] = make([]int, n)
			tab[a][t.R.Intn(n)] += t.R.Intn(3)
		}
		tab[t.R.Intn(n)][t.R.Intn(n)] += 50 + t.R.Intn(900)
		ok = t.tableCase(tab, t.R.Intn(len(levels)))
	}
	for i := 0; ok && i < t.Pick(100, 1000); i++ { // far more instances than the model counts
		p, q := 2+t.R.Intn(4), 2+t.R.Intn(4)
		tab := make([][]int, p)
		r, c := make([]int, p), make([]int, q)
		for a := range r {
			r[a] = t.R.Intn(4)
		}
		for b := range c {
			c[b] = t.R.Intn(4)
		}
		r[0], c[0] = 1, 1
		for a := range tab {
			tab[a] = make([]int, q)
			for b := range tab[a] {
				tab[a][b] = r[a] * c[b]
				if i%2 == 0 && t.R.Intn(4) == 0 {
					tab[a][b] += t.R.Intn(2)
				}
			}
		}
		ok = t.scaledCase(tab, []int{10, 100, 1000, 10000, 100000}[t.R.Intn(5)]*(1+t.R.Intn(9)), t.R.Intn(len(levels)))
	}
	// the distribution function itself, at the critical values of the specification's table
	for df := 1; ok && df <= len(critTable); df++ {
		for lv, c := range critTable[df-1] {
			e := Ev{"op": "cdf", "df": df, "level": lv + 1, "crit": c}
			ok = ok && t.do(e, func() { e["r"] = micro(1 - indep.ChiSquare(float64(c)/1e5, df)) })
		}
	}
	for i := 0; ok && i < t.Pick(30, 300); i++ {
		n, m := 1+t.R.Intn(7), 1+t.R.Intn(60)
		switch t.R.Intn(10) {
		case 0:
			n = 8 + t.R.Intn(8)
		case 1:
			m = 100 + t.R.Intn(400)
		case 2:
			n, m = 1+t.R.Intn(4), 600+t.R.Intn(1400)
		}
		ok = t.groupCase(n, m)
	}
}
