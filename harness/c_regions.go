package main

import (
	"encoding/json"
	"fmt"
	"math"

	"github.com/RenatoGeh/gospn/learn"
	"github.com/RenatoGeh/gospn/learn/dennis"
	"github.com/RenatoGeh/gospn/learn/parameters"
	"github.com/RenatoGeh/gospn/learn/poon"
	"github.com/RenatoGeh/gospn/spn"
	"github.com/RenatoGeh/gospn/sys"
)

func init() {
	drivers["C16"] = driveC16
}

// dag writes a network as its nodes, children first. Variable v is number v+1.
func dag(S spn.SPN) []Ev {
	at := map[spn.SPN]int{}
	out := []Ev{}
	var rec func(spn.SPN) int
	rec = func(z spn.SPN) int {
		if i, ok := at[z]; ok {
			return i
		}
		at[z] = 0 // a cycle shows as child 0
		ch := []int{}
		for _, c := range z.Ch() {
			ch = append(ch, rec(c))
		}
		var e Ev
		switch n := z.(type) {
		case *spn.Gaussian:
			mu, sd := n.Params()
			e = Ev{"k": "leaf", "v": n.Sc()[0] + 1, "mu": round4(mu), "var": round4(sd * sd)}
		case *spn.Sum:
			w := []int{}
			for _, x := range n.Weights() {
				w = append(w, round6(x))
			}
			e = Ev{"k": "sum", "ch": ch, "w": w}
		case *spn.Product:
			e = Ev{"k": "prod", "ch": ch}
		default:
			e = Ev{"k": fmt.Sprintf("%T", z), "ch": ch}
		}
		out = append(out, e)
		at[z] = len(out)
		return len(out)
	}
	rec(S)
	return out
}

func round6(x float64) int {
	if math.IsNaN(x) || math.Abs(x) > 1000 {
		return notExact
	}
	return int(math.Round(x * 1e6))
}

func judge(e Ev, S spn.SPN) {
	spn.ComputeScope(S)
	e["complete"], e["decomposable"] = spn.Complete(S), spn.Decomposable(S)
	// each node once: there are far more paths than nodes
	st := spn.NewStorer()
	_, tk := spn.StoreInference(S, spn.VarSet{}, -1, st)
	v, _ := st.Single(tk, S)
	e["mass"] = exact(math.Exp(v) * 1e6)
}

func (t *T) dennisCase(rows [][]int, k, m, g int, th float64, gd bool) bool {
	n := len(rows[0])
	ids := make([]int, n)
	sc := map[int]*learn.Variable{}
	for i := range ids {
		ids[i] = i
		sc[i] = &learn.Variable{Varid: i, Categories: 16, Name: fmt.Sprint(i)}
	}
	data := asMaps(rows, ids)
	e := Ev{"op": "dennis", "k": k, "m": m, "g": g, "gd": gd, "t": th}
	return t.do(e, func() {
		var S spn.SPN
		if gd {
			P := parameters.Default()
			P.Iterations, P.Epsilon = 2, 10
			S = dennis.LearnGD(data, sc, k, m, g, th, P, 0)
		} else {
			S = dennis.Structure(data, sc, k, m, g, th)
		}
		e["net"] = dag(S)
		judge(e, S)
		e["kept"] = fmt.Sprint(data) == fmt.Sprint(asMaps(rows, ids)) && len(sc) == n
	})
}

func (t *T) poonCase(rows [][]int, w, h, m, g, r int, gd bool) bool {
	ids := make([]int, w*h)
	for i := range ids {
		ids[i] = i
	}
	data := asMaps(rows, ids)
	sys.Width, sys.Height, sys.Max = w, h, 16
	e := Ev{"op": "poon", "w": w, "h": h, "m": m, "g": g, "r": r, "raw": !gd}
	return t.do(e, func() {
		var S spn.SPN
		if gd {
			if t.R.Intn(2) == 0 {
				S = poon.BindedGD(m, g, r, 0.01, 5)(nil, data)
			} else {
				S = poon.LearnGD(data, m, g, r, 0.01, 5)
			}
			e["net"] = dag(S)
		} else {
			S = poon.Structure(data, m, g, r)
			e["net"] = dag(S)
			spn.NormalizeSPN(S)
		}
		judge(e, S)
		codes := [][2][4]int{}
		for i := 0; i < 6; i++ { // rectangles of this image and their codes
			x, y := t.R.Intn(w), t.R.Intn(h)
			q := [4]int{x, y, x + 1 + t.R.Intn(w-x), y + 1 + t.R.Intn(h-y)}
			a, b, c, d := poon.Decode(poon.Encode(q[0], q[1], q[2], q[3]))
			codes = append(codes, [2][4]int{q, {a, b, c, d}})
		}
		e["codes"] = codes
		e["kept"] = fmt.Sprint(data) == fmt.Sprint(asMaps(rows, ids)) && sys.Width == w && sys.Height == h
	})
}

func (t *T) pixelRows(n, m, top int) [][]int {
	proto := make([][]int, 1+t.R.Intn(3))
	for i := range proto {
		proto[i] = make([]int, m)
		for j := range proto[i] {
			proto[i][j] = t.R.Intn(top + 1)
		}
	}
	noise := t.R.Intn(4)
	rows := make([][]int, n)
	for i := range rows {
		rows[i] = append([]int{}, proto[t.R.Intn(len(proto))]...)
		for j := range rows[i] {
			if t.R.Intn(4) < noise {
				rows[i][j] = t.R.Intn(top + 1)
			}
		}
	}
	return rows
}

func driveC16(t *T) {
	ok := true
	image := func(w, h, r int) {
		rows := t.pixelRows(1+t.R.Intn(8), w*h, []int{1, 3, 15}[t.R.Intn(3)])
		t.Emit(Ev{"op": "case", "rows": rows})
		t.Case("image dataset", fmt.Sprint(w, h, r, rows))
		ok = ok && t.poonCase(rows, w, h, 1+t.R.Intn(4), 1+t.R.Intn(4), r, t.R.Intn(6) == 0)
	}
	t.specLines(func(b []byte) {
		var x struct{ W, H, R int }
		if json.Unmarshal(b, &x) != nil {
			panic("bad image size")
		}
		t.Case("image size enumerated by TLC", fmt.Sprint(x))
		for i := 0; ok && i < 10; i++ {
			image(x.W, x.H, x.R)
		}
	})
	for i := 0; ok && i < t.Pick(200, 1500); i++ {
		r := 1 + t.R.Intn(3)
		w, h := r*(1+t.R.Intn(3)), r*(1+t.R.Intn(3))
		switch t.R.Intn(20) {
		case 0:
			r = 1 + t.R.Intn(3)
			w, h = r*(1+t.R.Intn(2)), r*(3+t.R.Intn(5))
			if t.R.Intn(2) == 0 {
				w, h = h, w
			}
		}
		if w*h == 1 || w*h > 42 {
			continue
		}
		image(w, h, r)
	}
	// cells of many pixels, of which the image may be but one
	for _, q := range [][3]int{{4, 4, 4}, {5, 5, 5}, {8, 4, 4}, {4, 8, 4}, {6, 6, 6}, {5, 10, 5}, {10, 5, 5}, {7, 7, 7}} {
		if ok && q[0]*q[1] <= t.Pick(50, 60) {
			image(q[0], q[1], q[2])
		}
	}
	for i := 0; ok && i < t.Pick(400, 3000); i++ {
		n, m := 2+t.R.Intn(12), 2+t.R.Intn(5)
		switch t.R.Intn(25) {
		case 0:
			n = 14 + t.R.Intn(60)
		case 1:
			m = 7 + t.R.Intn(4)
		}
		k, s, g := t.R.Intn(4)-1, 1+t.R.Intn(3), 1+t.R.Intn(4)
		switch t.R.Intn(30) {
		case 0: // many quantiles
			n, m, g, s = 20+t.R.Intn(30), 2+t.R.Intn(2), 5+t.R.Intn(25), 1
		case 1: // many regions
			m, k, s, g = 8+t.R.Intn(3), 3+t.R.Intn(6), 1, 1
			n = 10 + t.R.Intn(10)
		}
		rows := t.pixelRows(n, m, []int{1, 3, 15}[t.R.Intn(3)])
		if t.R.Intn(12) == 0 { // few distinct instances among many clusters
			k = 4 + t.R.Intn(5)
			n, s, g = k+t.R.Intn(12), 1, 1
			base := t.pixelRows(2+t.R.Intn(2), m, []int{1, 3, 15}[t.R.Intn(3)])
			rows = nil
			for len(rows) < n {
				rows = append(rows, base[t.R.Intn(len(base))])
			}
		}
		t.Emit(Ev{"op": "case", "rows": rows})
		t.Case("dataset", fmt.Sprint(rows))
		ok = t.dennisCase(rows, k, s, g, []float64{0.3, 0.5, 0.8, 0.95}[t.R.Intn(4)], t.R.Intn(6) == 0)
	}
}
