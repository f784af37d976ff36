package main

import (
	"bytes"
	"encoding/gob"
	"encoding/json"
	"fmt"

	"github.com/RenatoGeh/gospn/data"
	"github.com/RenatoGeh/gospn/learn"
	"github.com/RenatoGeh/gospn/spn"
)

func init() {
	drivers["C19"] = driveC19
}

type labelled struct {
	D   []map[int]int
	L   []int
	has bool
}

type specData struct {
	Rows [][][2]int `json:"rows"`
	Labs []int      `json:"labs"`
	Has  bool       `json:"has"`
}

func (s specData) real() *labelled {
	d := &labelled{has: s.Has, D: []map[int]int{}}
	for _, r := range s.Rows {
		m := map[int]int{}
		for _, p := range r {
			m[p[0]] = p[1]
		}
		d.D = append(d.D, m)
	}
	if s.Has {
		d.L = append([]int{}, s.Labs...)
	}
	return d
}

func (d *labelled) spec() specData {
	s := specData{Rows: [][][2]int{}, Labs: []int{}, Has: d.has}
	for _, r := range d.D {
		s.Rows = append(s.Rows, Pairs(r))
	}
	if d.has {
		s.Labs = append(s.Labs, d.L...)
	}
	return s
}

type dataWorld struct {
	t  *T
	ds []*labelled
}

func newDataWorld(t *T, s specData) *dataWorld {
	w := &dataWorld{t: t, ds: []*labelled{s.real()}}
	t.Emit(Ev{"op": "case", "d": s})
	return w
}

func plain(D []map[int]int) *labelled          { return &labelled{D: D} }
func withL(D []map[int]int, L []int) *labelled { return &labelled{D: D, L: L, has: true} }

func (w *dataWorld) op(op string, i, j int) bool {
	t := w.t
	t.Case(op, "")
	e := Ev{"op": op, "i": i, "j": j}
	d := w.ds[i-1]
	var res []*labelled
	err := Call(func() {
		switch op {
		case "copy":
			D, L := data.Copy(d.D, d.L)
			res = []*labelled{{D, L, L != nil}}
		case "join":
			D, L := data.Join(d.D, w.ds[j-1].D, d.L, w.ds[j-1].L)
			res = []*labelled{{D, L, L != nil}}
		case "split":
			for _, p := range data.Split(d.D, j, d.L) {
				res = append(res, plain(p))
			}
		case "sublabel":
			S, P, T, Q := data.SubtractLabel(d.D, d.L, j)
			res = []*labelled{withL(S, P), withL(T, Q)}
		case "subvar":
			res = []*labelled{plain(data.SubtractVariable(d.D, &learn.Variable{Varid: j}))}
		case "mergelabel":
			res = []*labelled{plain(data.MergeLabel(d.D, d.L, &learn.Variable{Varid: j}))}
		case "extract":
			sc := map[int]*learn.Variable{}
			for v := 0; v <= j; v++ {
				sc[v] = &learn.Variable{Varid: v, Categories: 2 + v, Name: fmt.Sprint("v", v)}
			}
			S, D, lv, L := data.ExtractLabels(sc, d.D)
			e["lv"] = lv.Varid
			e["scope"] = len(S) == j+1 && S[j] == lv
			res = []*labelled{withL(D, L)}
		case "shuffle":
			data.Shuffle(d.D, d.L)
			res = []*labelled{d}
		case "partition", "partitionl":
			q := []int{2, 4, 8, 16, 10, 100}[t.R.Intn(6)]
			if op == "partition" {
				q = []int{2, 3, 4, 5, 7, 8, 10, 100}[t.R.Intn(8)]
			}
			p, left := []int{}, q
			for left > 0 {
				k := t.R.Intn(left + 1)
				p = append(p, k)
				left -= k
			}
			f := make([]float64, len(p))
			for a := range p {
				f[a] = float64(p[a]) / float64(q)
			}
			e["p"], e["q"] = p, q
			if op == "partition" {
				for _, x := range data.Partition(d.D, f) {
					res = append(res, plain(x))
				}
			} else {
				c := 1
				for _, l := range d.L {
					if l >= c {
						c = l + 1
					}
				}
				c += t.R.Intn(2)
				e["c"] = c
				M, U := data.PartitionByLabels(d.D, d.L, c, f)
				for a := range M {
					res = append(res, withL(M[a], U[a]))
				}
			}
		case "divide":
			n := 1 + t.R.Intn(len(d.D)+3)
			e["n"] = n
			G, H := data.Divide(d.D, d.L, n)
			for a := range G {
				res = append(res, withL(G[a], H[a]))
			}
		}
	})
	out := []specData{}
	for _, r := range res {
		out = append(out, r.spec())
	}
	e["res"] = out
	if err != "" {
		e["err"] = err
	}
	t.Emit(e)
	if op != "shuffle" {
		w.ds = append(w.ds, res...)
	}
	return err == ""
}

func (w *dataWorld) write(i, k, v, x int) bool {
	return w.t.do(Ev{"op": "write", "i": i, "k": k, "v": v, "x": x}, func() { w.ds[i-1].D[k-1][v] = x })
}

func (w *dataWorld) relabel(i, k, x int) bool {
	return w.t.do(Ev{"op": "relabel", "i": i, "k": k, "x": x}, func() { w.ds[i-1].L[k-1] = x })
}

// writeAll writes to every instance of a dataset, and to its labels.
func (w *dataWorld) writeAll(i, v, x int) bool {
	d := w.ds[i-1]
	ok := w.t.do(Ev{"op": "writeall", "i": i, "v": v, "x": x}, func() {
		for k, I := range d.D {
			I[v] = x + k + 1
		}
	})
	if ok && d.has {
		ok = w.t.do(Ev{"op": "relabelall", "i": i, "x": x}, func() {
			for k := range d.L {
				d.L[k] = x + k + 1
			}
		})
	}
	return ok
}

// scribble writes to a few of the datasets, in places of its own.
func (w *dataWorld) scribble(n int) bool {
	ok := true
	for k := 0; ok && k < n; k++ {
		i := 1 + w.t.R.Intn(len(w.ds))
		d := w.ds[i-1]
		if len(d.D) == 0 {
			continue
		}
		ok = w.write(i, 1+w.t.R.Intn(len(d.D)), 0, 100+k)
		if ok && d.has && w.t.R.Intn(3) == 0 {
			ok = w.relabel(i, 1+w.t.R.Intn(len(d.D)), 20+k)
		}
	}
	return ok
}

func (w *dataWorld) look() {
	all := []specData{}
	for _, d := range w.ds {
		all = append(all, d.spec())
	}
	w.t.Emit(Ev{"op": "look", "all": all})
}

func (w *dataWorld) query(op string, i, j int) bool {
	e := Ev{"op": op, "i": i, "j": j}
	d := w.ds[i-1]
	t := w.t
	t.Case(op, "")
	switch op {
	case "identical":
		o := w.ds[j-1]
		return t.do(e, func() { e["r"] = data.Identical(d.D, o.D, d.L, o.L) })
	case "column":
		return t.do(e, func() {
			e["v"] = j
			e["r"] = learn.ExtractInstance(j, d.D)
		})
	}
	return true
}

// complete datasets: every instance has variables 0..n-1
func (w *dataWorld) matrix(i int, complete bool) bool {
	d := w.ds[i-1]
	e := Ev{"op": "matrix", "i": i}
	w.t.Case("matrix", "")
	return w.t.do(e, func() {
		var m [][]int
		cols := []int{}
		var c map[int]int
		switch {
		case complete && w.t.R.Intn(2) == 0:
			if w.t.R.Intn(2) == 0 {
				m = learn.CompleteDataToMatrix(d.D)
			} else {
				m = toInts(learn.CompleteDataToMatrixF(d.D))
			}
			for v := range d.D[0] {
				_ = v
				cols = append(cols, len(cols))
			}
		case w.t.R.Intn(2) == 0:
			m, c = learn.DataToMatrix(d.D)
		case w.t.R.Intn(2) == 0:
			var f [][]float64
			f, c = learn.DataToMatrixF(d.D)
			m = toInts(f)
		default: // variables with their observations
			sc := map[int]*learn.Variable{}
			for v := range d.D[0] {
				sc[v] = &learn.Variable{Varid: v, Categories: 9}
			}
			V := learn.DataToVarData(d.D, sc)
			m = make([][]int, len(d.D))
			for _, x := range V {
				cols = append(cols, x.Varid)
				for r, y := range x.Data {
					m[r] = append(m[r], y)
				}
			}
		}
		for k := 0; k < len(c); k++ {
			cols = append(cols, c[k])
		}
		e["m"], e["cols"] = m, cols
	})
}

func toInts(f [][]float64) [][]int {
	m := make([][]int, len(f))
	for i := range f {
		m[i] = make([]int, len(f[i]))
		for j := range f[i] {
			m[i][j] = int(f[i][j])
		}
	}
	return m
}

func varsOf(sc map[int]*learn.Variable) [][4]string {
	out := [][4]string{}
	for i := 0; i < 40; i++ {
		if v, ok := sc[i]; ok {
			out = append(out, [4]string{fmt.Sprint(i), fmt.Sprint(v.Varid), fmt.Sprint(v.Categories), v.Name})
		}
	}
	return out
}

func (w *dataWorld) scopes() bool {
	t := w.t
	names := []string{"", "x", "two words", " lead", "trail ", "ünïcode", "a  b", "7"}
	sc := map[int]*learn.Variable{}
	for i := t.R.Intn(12); i >= 0; i-- {
		v := t.R.Intn(40)
		sc[v] = &learn.Variable{Varid: v, Categories: t.R.Intn(20), Name: names[t.R.Intn(len(names))]}
	}
	e := Ev{"op": "vars", "orig": varsOf(sc)}
	t.Case("scope", "")
	return t.do(e, func() {
		c := learn.CopyScope(sc)
		r := learn.ReflectScope(sc)
		e["mirror"] = varsOf(r)
		e["copy"] = varsOf(c)
		dec := map[int]*learn.Variable{}
		refl, dist := len(r) == len(sc), true
		for k, v := range sc {
			refl = refl && r[k] == v
			dist = dist && c[k] != v
			var b bytes.Buffer
			u := &learn.Variable{}
			if err := gob.NewEncoder(&b).Encode(v); err != nil {
				panic(err)
			}
			if err := gob.NewDecoder(&b).Decode(u); err != nil {
				panic(err)
			}
			dec[k] = u
		}
		e["decoded"] = varsOf(dec)
		e["reflected"], e["distinct"] = refl, dist
		for k := range r {
			delete(r, k)
		}
		for k := range c {
			c[k].Categories = 77
			delete(c, k)
		}
		e["after"] = varsOf(sc)
	})
}

// mul spreads the numbers of the variables.
func randomData(t *T, n, vars, mul int, complete bool) specData {
	s := specData{Rows: [][][2]int{}, Labs: []int{}, Has: true}
	cls := 1 + t.R.Intn(4)
	if t.R.Intn(8) == 0 {
		cls = 5 + t.R.Intn(12)
	}
	low, top := 0, 3
	if t.R.Intn(6) == 0 {
		low, top = -1000, 1000000
	}
	for i := 0; i < n; i++ {
		m := map[int]int{}
		for v := 0; v < vars; v++ {
			if complete || t.R.Intn(5) != 0 {
				m[v*mul] = t.R.Intn(top-low) + low
			}
		}
		s.Rows = append(s.Rows, Pairs(m))
		s.Labs = append(s.Labs, t.R.Intn(cls))
	}
	if t.R.Intn(4) == 0 {
		s.Has, s.Labs = false, []int{}
	}
	return s
}

func driveC19(t *T) {
	type beh struct {
		Start specData         `json:"start"`
		Hist  [][3]interface{} `json:"hist"`
	}
	var bs []beh
	t.specLines(func(b []byte) {
		var h beh
		if err := json.Unmarshal(b, &h); err != nil {
			panic(err)
		}
		bs = append(bs, h)
	})
	t.R.Shuffle(len(bs), func(i, j int) { bs[i], bs[j] = bs[j], bs[i] })
	if m := t.Pick(500, 6000); len(bs) > m {
		bs = bs[:m]
	}
	for _, b := range bs {
		t.Case("history enumerated by TLC", fmt.Sprint(b))
		w := newDataWorld(t, b.Start)
		for _, h := range b.Hist {
			op, i, j := h[0].(string), int(h[1].(float64)), int(h[2].(float64))
			ok := true
			switch op {
			case "write":
				ok = w.write(i, 1, 0, 7)
			case "relabel":
				ok = w.relabel(i, 1, 1)
			default:
				ok = w.op(op, i, j)
			}
			if !ok {
				return
			}
		}
		w.look()
	}
	ops := []string{"copy", "join", "split", "sublabel", "subvar", "mergelabel", "shuffle", "partition", "partitionl", "partitionl", "divide",
		"identical", "write", "relabel", "column", "extract"}
	for i := 0; i < t.Pick(120, 2000); i++ {
		n := []int{0, 1, 2, 3, 5, 8, 11, 16, 23}[t.R.Intn(9)]
		if t.R.Intn(15) == 0 {
			n = 24 + t.R.Intn(120)
		}
		complete := t.R.Intn(2) == 0
		vars, mul := 1+t.R.Intn(4), 1
		if t.R.Intn(12) == 0 {
			vars = 5 + t.R.Intn(20)
		}
		if !complete && t.R.Intn(4) == 0 {
			mul = 1 + t.R.Intn(5000)
		}
		w := newDataWorld(t, randomData(t, n, vars, mul, complete))
		t.Case("random history", "")
		if i < 2 {
			t.Sample(w.ds[0].spec())
		}
		if complete && n > 0 && (!w.matrix(1, true) || !w.op("extract", 1, vars-1)) {
			return
		}
		if !w.scopes() {
			return
		}
		for j := 0; j < 8 && len(w.ds) < 16; j++ {
			a, b := 1+t.R.Intn(len(w.ds)), 1+t.R.Intn(len(w.ds))
			if t.R.Intn(2) == 0 {
				a = 1
			}
			d := w.ds[a-1]
			op := ops[t.R.Intn(len(ops))]
			ok := true
			cls, low := 1, 0
			for _, l := range d.L {
				if l >= cls {
					cls = l + 1
				}
				if l < low {
					low = l
				}
			}
			classes := d.has && low >= 0 && cls < 40 // labels are classes, not values of some variable
			switch op {
			case "copy", "shuffle", "partition":
				ok = w.op(op, a, 0)
			case "join":
				ok = len(w.ds[a-1].D)+len(w.ds[b-1].D) > 50+n || w.op(op, a, b)
			case "identical":
				ok = w.query(op, a, b) && w.op("copy", a, 0) && w.query(op, a, len(w.ds))
				if ok && len(d.D) > 0 && t.R.Intn(2) == 0 { // a copy that differs in one place
					k := 1 + t.R.Intn(len(d.D))
					c := len(w.ds)
					if t.R.Intn(3) == 0 && d.has {
						ok = w.relabel(c, k, 9)
					} else {
						ok = w.write(c, k, t.R.Intn(6)*mul, t.R.Intn(3))
					}
					ok = ok && w.query(op, a, c) && w.query(op, c, a)
				}
			case "split":
				ok = !classes || w.op(op, a, cls+t.R.Intn(2))
			case "sublabel":
				ok = !d.has || w.op(op, a, t.R.Intn(cls+1))
			case "subvar":
				ok = w.op(op, a, t.R.Intn(vars+2)*mul)
			case "mergelabel":
				ok = !d.has || w.op(op, a, (vars+t.R.Intn(4))*mul)
			case "partitionl":
				ok = !classes || w.op(op, a, 0)
			case "divide":
				ok = !d.has || len(d.D) == 0 || w.op(op, a, 0)
			case "write":
				ok = len(d.D) == 0 || w.write(a, 1+t.R.Intn(len(d.D)), t.R.Intn(5)*mul, t.R.Intn(5))
			case "relabel":
				ok = !d.has || len(d.D) == 0 || w.relabel(a, 1+t.R.Intn(len(d.D)), t.R.Intn(3))
			case "column":
				if len(d.D) > 0 {
					v := t.R.Intn(vars) * mul
					all := true
					for _, r := range d.D {
						if _, e := r[v]; !e {
							all = false
						}
					}
					ok = !all || w.query(op, a, v)
				}
			}
			if !ok {
				return
			}
		}
		if d := w.ds[0]; d.has && t.R.Intn(3) == 0 { // the same labels as values of different variables
			x, y := len(w.ds)+1, len(w.ds)+2
			v := vars + t.R.Intn(3)
			if !w.op("mergelabel", 1, v*mul) || !w.op("mergelabel", 1, (v+1+t.R.Intn(2))*mul) || !w.query("identical", x, y) || !w.query("identical", y, x) {
				return
			}
		}
		if !w.scribble(6) {
			return
		}
		w.look()
	}
	for i, z := 0, t.Pick(8, 60); i < z; i++ { // many instances
		many := 100 + t.R.Intn(300)
		if i%5 == 0 {
			many = 1025 + t.R.Intn(200)
		}
		s := randomData(t, many, 1+t.R.Intn(2), 1, true)
		for !s.Has {
			s = randomData(t, many, 1+t.R.Intn(2), 1, true)
		}
		if i%3 == 1 { // and many classes
			top := 13 + t.R.Intn(20)
			for k := range s.Labs {
				s.Labs[k] = t.R.Intn(top)
			}
		}
		cls := 1
		for _, l := range s.Labs {
			if l >= cls {
				cls = l + 1
			}
		}
		w := newDataWorld(t, s)
		t.Case("many instances", "")
		if !w.op("copy", 1, 0) || !w.op("shuffle", 2, 0) || !w.op("join", 1, 2) || !w.op("split", 1, cls) || !w.op("sublabel", 1, 0) ||
			!w.op([]string{"partition", "partitionl", "divide"}[i%3], 1, 0) || !w.scribble(4) {
			return
		}
		late := many - t.R.Intn(1+many/10) // a copy that differs in one place near the end
		c := len(w.ds) + 1
		if !w.op("copy", 1, 0) || !w.write(c, late, 0, -7) || !w.query("identical", 1, c) || !w.query("identical", c, 1) {
			return
		}
		w.look()
		for k := 0; k < 3; k++ { // nothing is shared, in the last rows either
			if !w.writeAll([]int{1, 1 + t.R.Intn(len(w.ds)), 3}[k], k, 5000*k) {
				return
			}
		}
		w.look()
	}
	for i := 0; i < t.Pick(30, 300); i++ { // matrix forms over scopes with holes
		ids := t.R.Perm(12)[:1+t.R.Intn(4)]
		if t.R.Intn(4) == 0 {
			ids = t.R.Perm(2000)[:1+t.R.Intn(30)]
		}
		s := specData{Rows: [][][2]int{}, Labs: []int{}}
		for k, z := 0, 1+t.R.Intn(8); k < z; k++ {
			m := map[int]int{}
			for _, v := range ids {
				m[v] = t.R.Intn(9)
			}
			s.Rows = append(s.Rows, Pairs(m))
		}
		w := newDataWorld(t, s)
		if !w.matrix(1, false) {
			return
		}
		m := make([][]int, 1+t.R.Intn(4))
		k := 1 + t.R.Intn(4)
		if t.R.Intn(6) == 0 {
			k = 1 + t.R.Intn(40)
		}
		for a := range m {
			m[a] = make([]int, k)
			for b := range m[a] {
				m[a][b] = t.R.Intn(9)
			}
		}
		e := Ev{"op": "frommatrix", "m": m}
		if !t.do(e, func() {
			D := learn.MatrixToData(m)
			e["res"] = []specData{plain(D).spec()}
			w.ds = append(w.ds, plain(D))
		}) {
			return
		}
		w.look()
	}
}

var _ spn.Dataset
