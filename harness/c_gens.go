package main

import (
	"encoding/json"
	"fmt"
	"math"
	"sort"

	"github.com/RenatoGeh/gospn/learn"
	"github.com/RenatoGeh/gospn/learn/gens"
	"github.com/RenatoGeh/gospn/spn"
)

func init() {
	drivers["C15"] = driveC15
}

// tree writes a learned tree of n rows: counts at multinomial leaves and weights are given as numbers of rows.
func tree(S spn.SPN, n int, pos map[int]int, cats []int) Ev {
	switch S.Type() {
	case "leaf":
		v := pos[S.Sc()[0]]
		c := []int{}
		for a := 0; v > 0 && a < cats[v-1]; a++ {
			c = append(c, exact(math.Exp(S.Value(spn.VarSet{S.Sc()[0]: a}))*float64(n+cats[v-1])-1))
		}
		return Ev{"k": "leaf", "v": v, "c": c}
	case "product":
		ch := []Ev{}
		for _, c := range S.Ch() {
			ch = append(ch, tree(c, n, pos, cats))
		}
		return Ev{"k": "prod", "ch": ch}
	}
	s := S.(*spn.Sum)
	w := s.Weights()
	gs := []*spn.Gaussian{}
	for _, c := range S.Ch() {
		if g, ok := c.(*spn.Gaussian); ok {
			gs = append(gs, g)
		}
	}
	if len(gs) > 0 && len(gs) == len(S.Ch()) {
		out := []Ev{}
		v := pos[gs[0].Sc()[0]]
		for i, g := range gs {
			mu, sd := g.Params()
			if pos[g.Sc()[0]] != v {
				v = 0
			}
			out = append(out, Ev{"w": exact(w[i] * float64(len(gs))), "mu": round4(mu), "var": round4(sd * sd)})
		}
		sort.SliceStable(out, func(i, j int) bool { return out[i]["mu"].(int) < out[j]["mu"].(int) })
		return Ev{"k": "mix", "v": v, "gs": out}
	}
	ns, ch := []int{}, []Ev{}
	for i, c := range S.Ch() {
		m := exact(w[i] * float64(n))
		ns = append(ns, m)
		ch = append(ch, tree(c, m, pos, cats))
	}
	return Ev{"k": "sum", "n": ns, "ch": ch}
}

func round4(x float64) int {
	if math.IsNaN(x) || math.Abs(x) > 1000 {
		return notExact
	}
	return int(math.Round(x * 1e4))
}

func (t *T) learnCase(rows [][]int, cats []int, level, k, e2, mp, g int) bool {
	ids := make([]int, len(cats))
	gap := t.R.Intn(3)
	if t.R.Intn(6) == 0 {
		gap = 100 + t.R.Intn(5000)
	}
	for i := range ids {
		ids[i] = i * (1 + gap)
	}
	if gap > 0 {
		t.R.Shuffle(len(ids), func(i, j int) { ids[i], ids[j] = ids[j], ids[i] })
	}
	pos := map[int]int{}
	sc := map[int]*learn.Variable{}
	for i, v := range ids {
		pos[v] = i + 1
		sc[v] = &learn.Variable{Varid: v, Categories: cats[i], Name: fmt.Sprint("v", v)}
	}
	data := asMaps(rows, ids)
	keep := func() string {
		s := fmt.Sprint(data)
		for _, v := range ids {
			s += fmt.Sprint(*sc[v])
		}
		return s + fmt.Sprint(len(sc))
	}
	before := keep()
	eps, pval := math.Sqrt(float64(e2)+0.5), levels[level]
	procs := []int{-1, 1, 2, 3, 8}[t.R.Intn(5)]
	type how struct {
		by string
		f  func() spn.SPN
	}
	var hows []how
	if g == 0 {
		hows = []how{
			{"Learn", func() spn.SPN { return gens.Learn(sc, data, k, pval, eps, mp) }},
			{"LearnConcurrent", func() spn.SPN { return gens.LearnConcurrent(sc, data, k, pval, eps, mp, procs) }},
			{"Binded", func() spn.SPN { return gens.Binded(k, pval, eps, mp)(sc, data) }},
		}
	} else {
		hows = []how{
			{"LearnGauss", func() spn.SPN { return gens.LearnGauss(sc, data, k, pval, eps, mp, g) }},
			{"LearnGaussConcurrent", func() spn.SPN { return gens.LearnGaussConcurrent(sc, data, k, pval, eps, mp, g, procs) }},
		}
	}
	h := hows[t.R.Intn(len(hows))]
	e := Ev{"op": "learn", "by": h.by, "level": level + 1, "k": k, "e2": e2, "mp": mp, "g": g, "cats": cats, "procs": procs}
	return t.do(e, func() {
		S := h.f()
		e["tree"] = tree(S, len(rows), pos, cats)
		spn.ComputeScope(S)
		scope := []int{}
		for _, v := range S.Sc() {
			scope = append(scope, pos[v])
		}
		e["scope"] = scope
		e["complete"], e["decomposable"] = spn.Complete(S), spn.Decomposable(S)
		e["mass"] = exact(math.Exp(S.Value(spn.VarSet{})) * 1e6)
		e["kept"] = before == keep()
	})
}

// rows of dependent variables: a hidden class drives groups of variables
func (t *T) classRows(n int, cats []int) [][]int {
	groups := 1 + t.R.Intn(3)
	noise := t.R.Intn(5)
	of := make([]int, len(cats))
	for i := range of {
		of[i] = t.R.Intn(groups)
	}
	rows := make([][]int, n)
	for r := range rows {
		h := make([]int, groups)
		for i := range h {
			h[i] = t.R.Intn(12)
		}
		rows[r] = make([]int, len(cats))
		for i, c := range cats {
			if t.R.Intn(6) < noise {
				rows[r][i] = t.R.Intn(c)
			} else {
				rows[r][i] = h[of[i]] % c
			}
		}
	}
	return rows
}

func driveC15(t *T) {
	ok := true
	one := func(rows [][]int, cats []int, times int) {
		t.Emit(Ev{"op": "case", "rows": rows})
		for j := 0; ok && j < times; j++ {
			k := 0
			if t.R.Intn(3) == 0 {
				k = 1 + t.R.Intn(4)
				if t.R.Intn(4) == 0 {
					k = 5 + t.R.Intn(4)
				}
			}
			g := 0
			if t.R.Intn(3) == 0 {
				g = 1 + t.R.Intn(4)
			}
			ok = t.learnCase(rows, cats, 1+t.R.Intn(5), k, []int{0, 1, 2, 4}[t.R.Intn(4)], 1+t.R.Intn(3), g)
		}
	}
	t.specLines(func(b []byte) {
		if !ok {
			return
		}
		var x struct {
			Cats []int
			Rows [][]int
		}
		if json.Unmarshal(b, &x) != nil {
			panic("bad dataset")
		}
		t.Case("dataset enumerated by TLC", fmt.Sprint(x))
		t.Sample(x)
		one(x.Rows, x.Cats, 2)
	})
	for i := 0; ok && i < t.Pick(120, 2500); i++ {
		n, m := 1+t.R.Intn(30), 1+t.R.Intn(6)
		switch t.R.Intn(15) {
		case 0:
			n = 31 + t.R.Intn(50)
		case 1:
			n, m = 1+t.R.Intn(12), 7+t.R.Intn(6)
		}
		cats := make([]int, m)
		for j := range cats {
			cats[j] = 1 + t.R.Intn(4)
			if t.R.Intn(15) == 0 {
				cats[j] = 5 + t.R.Intn(6)
			}
		}
		if m < 4 && t.R.Intn(8) == 0 { // many categories, not all of them used
			j := t.R.Intn(m)
			cats[j] = 11 + t.R.Intn(6)
		}
		rows := t.classRows(n, cats)
		if t.R.Intn(4) == 0 {
			for r := range rows {
				for j := range rows[r] {
					if cats[j] > 3 && rows[r][j] >= cats[j]-1-cats[j]/6 {
						rows[r][j] = 0
					}
				}
			}
		}
		t.Case("random dataset", fmt.Sprint(rows))
		one(rows, cats, 3)
	}
	// many rows, of which a cluster has its share
	for i := 0; ok && i < t.Pick(10, 80); i++ {
		n, m := []int{150, 300, 600, 1200}[i%4], 2+t.R.Intn(3)
		n += t.R.Intn(n / 2)
		cats := make([]int, m)
		for j := range cats {
			cats[j] = 2 + t.R.Intn(4)
		}
		rows := t.classRows(n, cats)
		if t.R.Intn(2) == 0 { // what there is to learn comes last
			for r := 0; r < n*4/5; r++ {
				rows[r] = append([]int{}, rows[r%2]...)
			}
		}
		t.Emit(Ev{"op": "case", "rows": rows})
		t.Case("dataset of many rows", fmt.Sprint(rows))
		for j := 0; ok && j < 3; j++ {
			g := 0
			if t.R.Intn(4) == 0 {
				g = 1 + n/150 + t.R.Intn(4) // squares of larger quantiles are beyond the model's integers
			}
			ok = t.learnCase(rows, cats, 1+t.R.Intn(5), 1+t.R.Intn(4), 1, 1, g)
		}
	}
}
