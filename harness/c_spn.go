package main

import (
	"fmt"
	"math"
	"math/rand"
	"path/filepath"

	"github.com/RenatoGeh/gospn/common"
	gio "github.com/RenatoGeh/gospn/io"
	"github.com/RenatoGeh/gospn/learn"
	"github.com/RenatoGeh/gospn/spn"
)

func init() {
	drivers["C01"] = driveC01
	drivers["C02"] = driveC02
	drivers["C03"] = driveC03
	drivers["C04"] = driveC04
	drivers["C05"] = driveC05
	drivers["C07"] = driveC07
}

// World is a network built with the real code.
type World struct {
	t     *T
	net   Net
	nodes []spn.SPN
	idx   map[spn.SPN]int
	den   []int
	dead  bool
	loose bool // too large to be evaluated in the specification
	big   bool // too large to be compared with exact gradients
}

// observe reads the built network back through the public accessors.
func (w *World) observe() []map[string]interface{} {
	out := make([]map[string]interface{}, len(w.nodes))
	for i, s := range w.nodes {
		x := w.net[i]
		kids := []int{}
		for _, c := range s.Ch() {
			kids = append(kids, w.idx[c])
		}
		switch y := s.(type) {
		case *spn.Sum:
			ws := []int{}
			for _, v := range y.Weights() {
				ws = append(ws, Lin(v, x.Wd))
			}
			out[i] = map[string]interface{}{"t": "sum", "ch": kids, "w": ws, "wd": x.Wd}
		case *spn.Product:
			out[i] = map[string]interface{}{"t": "prod", "ch": kids}
		case *spn.Indicator:
			v := first(y.Sc())
			on := bad
			for u := 0; u < 20; u++ {
				if y.Value(spn.VarSet{v: u}) == 0 {
					on = u
					break
				}
			}
			out[i] = map[string]interface{}{"t": "ind", "var": v, "val": on}
		case *spn.Multinomial:
			tab := []int{}
			for _, p := range y.Pr() {
				tab = append(tab, Lin(p, x.Td))
			}
			out[i] = map[string]interface{}{"t": "mult", "var": first(y.Sc()), "tab": tab, "td": x.Td}
		}
	}
	return out
}

func newWorld(t *T, n Net) *World {
	w := &World{t: t, net: n, idx: map[spn.SPN]int{}}
	e := Ev{"op": "build", "net": n.JSON()}
	err := Call(func() {
		w.nodes = n.Build()
		for i, s := range w.nodes {
			w.idx[s] = i + 1
		}
		w.den = n.Den()
		e["obs"] = w.observe()
		img, _ := Snapshot(w.root())
		e["image"] = img
	})
	w.emit(e, err)
	t.Case("network", n.Key())
	return w
}

func (w *World) emit(e Ev, err string) {
	if err != "" {
		e["err"] = err
		w.dead = true
	}
	w.t.Emit(e)
}

func (w *World) root() spn.SPN { return w.nodes[len(w.nodes)-1] }

// pickNode picks the root most of the time.
func (w *World) pickNode() int {
	if w.t.R.Intn(3) != 0 {
		return len(w.nodes)
	}
	return 1 + w.t.R.Intn(len(w.nodes))
}

func (w *World) query(op string, k int, ev spn.VarSet, f func(e Ev)) {
	if w.dead {
		return
	}
	e := Ev{"op": op, "k": k, "ev": Pairs(ev)}
	err := Call(func() { f(e) })
	e["evafter"] = Pairs(ev)
	w.emit(e, err)
	w.t.Case(op, "")
}

func (w *World) untouched() {
	if w.dead {
		return
	}
	e := Ev{"op": "untouched"}
	err := Call(func() { e["image"], _ = Snapshot(w.root()) })
	w.emit(e, err)
}

func (w *World) tableNums(tab spn.StorerTable) []int {
	out := make([]int, len(w.nodes))
	for i, s := range w.nodes {
		v, ok := tab.Single(s)
		if !ok {
			out[i] = -2
		} else {
			out[i] = Num(v, w.den[i])
		}
	}
	return out
}

func (w *World) qValue(k int, ev spn.VarSet) {
	w.query("infer", k, ev, func(e Ev) {
		e["api"] = "Value"
		e["res"] = Num(w.nodes[k-1].Value(ev), w.den[k-1])
	})
}

func (w *World) qInference(k int, ev spn.VarSet) {
	w.query("infer", k, ev, func(e Ev) {
		e["api"] = "Inference"
		e["res"] = Num(spn.Inference(w.nodes[k-1], ev), w.den[k-1])
	})
}

func (w *World) qInferenceY(k int, ev spn.VarSet, y, v int) {
	w.query("infery", k, ev, func(e Ev) {
		e["y"], e["yv"] = y, v
		e["res"] = Num(spn.InferenceY(w.nodes[k-1], ev, y, v), w.den[k-1])
	})
}

// qStore stores on a new ticket (tk < 0) or on a given one.
func (w *World) qStore(k int, ev spn.VarSet, tk int, st *spn.Storer) int {
	got := tk
	w.query("store", k, ev, func(e Ev) {
		S, r := spn.StoreInference(w.nodes[k-1], ev, tk, st)
		got = r
		e["tkok"] = S == w.nodes[k-1] && ((tk < 0 && r >= 0) || r == tk)
		tab, ok := st.Table(r)
		if !ok {
			e["tkok"] = false
		}
		e["table"] = w.tableNums(tab)
	})
	return got
}

// allEvidence enumerates every partial assignment of a small network.
func (n Net) allEvidence() []spn.VarSet {
	vars, card := n.Vars()
	out := []spn.VarSet{{}}
	for _, v := range vars {
		var next []spn.VarSet
		for _, e := range out {
			next = append(next, e)
			for u := 0; u < card[v]; u++ {
				f := copyVS(e)
				f[v] = u
				next = append(next, f)
			}
		}
		out = next
	}
	return out
}

func driveC01(t *T) {
	// Networks the specification enumerates, with every evidence.
	for _, n := range t.FitNets() {
		w := newWorld(t, n)
		for i, ev := range n.allEvidence() {
			switch i % 3 {
			case 0:
				w.qValue(len(n), ev)
				w.qInference(len(n), ev)
			case 1:
				w.qStore(len(n), ev, -1, spn.NewStorer())
			default:
				w.qInference(len(n), ev)
			}
		}
		if w.dead {
			return
		}
	}
	for i := 0; i < t.Pick(260, 4000); i++ {
		n := GenMix(t.R)
		t.Sample(n.JSON())
		w := newWorld(t, n)
		st := spn.NewStorer()
		tk := -1
		for j := 0; j < 6; j++ {
			ev := n.Evidence(t.R)
			k := w.pickNode()
			w.qValue(k, ev)
			w.qInference(w.pickNode(), ev)
			vars, card := n.Vars()
			y := vars[t.R.Intn(len(vars))]
			yv := t.R.Intn(card[y])
			if t.R.Intn(6) == 0 {
				y, yv = 50, 1 // a variable the network does not have
			}
			w.qInferenceY(w.pickNode(), ev, y, yv)
			switch t.R.Intn(4) {
			case 0:
				tk = -1
			case 1:
				if tk >= 0 {
					st.Reset(tk)
				}
			}
			tk = w.qStore(w.pickNode(), ev, tk, st)
			if t.R.Intn(8) == 0 {
				w.setWeight()
			} else if t.R.Intn(12) == 0 {
				w.grow()
			}
			if w.dead {
				return
			}
		}
		if !w.changed() {
			w.untouched()
		}
	}
	for i := 0; i < t.Pick(60, 800); i++ {
		if !localCase(t, i) {
			return
		}
	}
	for i := 0; i < t.Pick(150, 1500); i++ {
		if !combine(t) {
			return
		}
	}
}

func (w *World) changed() bool { return w.net == nil || w.net[len(w.net)-1].Var == -99 }

// setWeight overwrites a weight in place.
func (w *World) setWeight() {
	if w.dead {
		return
	}
	k := 1 + w.t.R.Intn(len(w.nodes))
	s, ok := w.nodes[k-1].(*spn.Sum)
	if !ok {
		return
	}
	i := w.t.R.Intn(len(w.net[k-1].W))
	v := 1 + w.t.R.Intn(3)
	n := append(Net(nil), w.net...)
	n[k-1].W = append([]int(nil), n[k-1].W...)
	n[k-1].W[i] = v
	if !n.fits() {
		return
	}
	w.net = n
	e := Ev{"op": "setw", "k": k, "i": i + 1, "w": v}
	err := Call(func() { s.Weights()[i] = float64(v) / math.Ldexp(1, n[k-1].Wd) })
	w.emit(e, err)
	w.net[len(w.net)-1].Var = -99 // its image is not what was built any more
	w.den = w.net.Den()
}

// grow gives an inner node one more child.
func (w *World) grow() {
	if w.dead {
		return
	}
	k := 1 + w.t.R.Intn(len(w.nodes))
	if k == 1 || len(w.net[k-1].Ch) == 0 {
		return
	}
	c := 1 + w.t.R.Intn(k-1)
	v := 1 + w.t.R.Intn(3)
	n := append(Net(nil), w.net...)
	n[k-1].Ch = append(append([]int(nil), n[k-1].Ch...), c)
	n[k-1].W = append(append([]int(nil), n[k-1].W...), v)
	if n[k-1].T == "prod" {
		n[k-1].W = nil
	}
	if !w.loose && !n.fits() {
		return
	}
	w.net = n
	e := Ev{"op": "grow", "k": k, "c": c, "w": v}
	err := Call(func() {
		switch x := w.nodes[k-1].(type) {
		case *spn.Sum:
			x.AddChildW(w.nodes[c-1], float64(v)/math.Ldexp(1, n[k-1].Wd))
		case *spn.Product:
			x.AddChild(w.nodes[c-1])
		}
	})
	w.emit(e, err)
	w.net[len(w.net)-1].Var = -99
	w.den = w.net.Den()
}

const negInf = -2000000000

// fixed4 is a log-value in units of 1e-4.
func fixed4(x float64) int {
	if math.IsInf(x, -1) {
		return negInf
	}
	if math.IsNaN(x) || math.Abs(x) > 1.5e5 {
		return 1900000000
	}
	return int(math.Round(x * 1e4))
}

// combine checks how a node combines values of its children.
func combine(t *T) bool {
	n := 1 + t.R.Intn(6)
	nums, ws, den, sc := make([]int, n), make([]int, n), t.R.Intn(4), t.R.Intn(4)
	cv := make([]float64, n)
	s, p := spn.NewSum(), spn.NewProduct()
	for i := range nums {
		nums[i], ws[i] = t.R.Intn(9), 1+t.R.Intn(8)
		cv[i] = math.Log(float64(nums[i])) - float64(den)*math.Ln2
		l := spn.NewIndicator(0, 0)
		s.AddChild(l)
		s.AddWeight(float64(ws[i]) / 8)
		p.AddChild(l)
	}
	e := Ev{"op": "compute", "nums": nums, "ws": ws}
	err := Call(func() {
		e["sum"], e["prod"] = Num(s.Compute(cv), den), Num(p.Compute(cv), n*den)
		e["hard"] = Num(s.ComputeHard(cv, math.Ldexp(1, -sc)), den+3-sc)
	})
	if err != "" {
		e["err"] = err
	}
	t.Emit(e)
	t.Case("combination", "")
	return err == ""
}

// realLeaf is a leaf of a network with real parameters: a Gaussian of mean m/2 and deviation 2^s, a
// multinomial in sixteenths, or an indicator of m.
type realLeaf struct {
	n    spn.SPN
	kind string
	v    int
	m, s int
	tab  []int
}

// event describes the leaf; val is what is known of its variable and v its recorded value. A leaf whose
// variable is unknown has value one, or that of its mode.
func (l realLeaf) event(x Ev, v float64, u int, set, mode bool) {
	switch l.kind {
	case "gauss":
		if mode && !set {
			u, set = l.m/2, true
		}
		x["t"], x["x"], x["m"], x["s"], x["set"] = "gauss", u, l.m, l.s, set
	case "mult":
		x["t"], x["num"], x["want"] = "num", Num(v, 4), 16
		if set {
			x["want"] = l.tab[u]
		} else if mode {
			m := 0
			for _, k := range l.tab {
				if k > m {
					m = k
				}
			}
			x["want"] = m
		}
	case "ind":
		x["t"], x["num"], x["want"] = "num", Num(v, 0), 1
		if set && u != l.m {
			x["want"] = 0
		}
	}
}

// realNet builds a larger network with arbitrary real weights and Gaussian leaves.
func realNet(t *T, i int, whole bool) (spn.SPN, map[spn.SPN]realLeaf, int) {
	r := t.R
	nv := 1 + r.Intn(6)
	fan := 1 + r.Intn(8)
	if i%7 == 0 {
		nv = 30 + r.Intn(40) // far below what a float64 can hold outside log space
	}
	kinds := []int{0, 1, 2}
	if i%14 == 0 { // nothing impossible, all very small
		kinds = []int{0, 0, 1}
		nv = 30 + r.Intn(150)
	}
	tiny := i%5 == 0
	near := i%3 == 1 // weights that hardly differ
	if near {
		kinds = [][]int{{2}, {1}, {0, 1, 2}}[r.Intn(3)]
	}
	info := map[spn.SPN]realLeaf{}
	mk := func(v int) spn.SPN {
		var l realLeaf
		switch kinds[r.Intn(len(kinds))] {
		case 0:
			m, s := r.Intn(41), r.Intn(5)-1
			if i%28 == 0 {
				m, s = 40, -1
			}
			if whole {
				m = 2 * r.Intn(3) // a value that the other leaves have, too
			}
			l = realLeaf{n: spn.NewGaussianParams(v, float64(m)/2, math.Ldexp(1, s)), kind: "gauss", v: v, m: m, s: s}
		case 1:
			tab := []int{1 + r.Intn(13), 0, 1}
			tab[1] = 16 - tab[0] - tab[2]
			l = realLeaf{kind: "mult", v: v, tab: tab}
			l.n = spn.NewMultinomial(v, []float64{float64(tab[0]) / 16, float64(tab[1]) / 16, float64(tab[2]) / 16})
		default:
			k := r.Intn(3)
			l = realLeaf{n: spn.NewIndicator(v, k), kind: "ind", v: v, m: k}
		}
		info[l.n] = l
		return l.n
	}
	weights := func(s *spn.Sum, cs []spn.SPN) {
		for _, c := range cs {
			x := r.Float64()
			if tiny {
				x = math.Pow(10, -20*r.Float64())
			}
			if near {
				x = 0.5 + float64(r.Intn(9))*math.Pow(10, -float64(3+r.Intn(6)))
			}
			if r.Intn(15) == 0 {
				x = 0
			}
			s.AddChildW(c, x)
		}
	}
	var shared []spn.SPN
	for v := 0; v < nv; v++ {
		var cs []spn.SPN
		for j := 0; j < 1+r.Intn(3) || near && j < 3; j++ {
			cs = append(cs, mk(v))
		}
		if near || r.Intn(2) == 0 {
			s := spn.NewSum()
			weights(s, cs)
			if near && r.Intn(4) == 0 { // many equal, the last all but equal
				s = spn.NewSum()
				for _, k := range r.Perm(12)[:9+r.Intn(3)] {
					x := 0.5
					if k == 0 {
						x -= math.Pow(10, -float64(3+r.Intn(4)))
					}
					l := realLeaf{n: spn.NewIndicator(v, 0), kind: "ind", v: v}
					if k == 0 {
						l.n, l.m = spn.NewIndicator(v, 2), 2
					}
					info[l.n] = l
					s.AddChildW(l.n, x)
				}
			}
			if !near && r.Intn(3) == 0 { // leaves of more than one sum, each weighing next to nothing there
				low := math.Ldexp(1, -r.Intn(150))
				o := spn.NewSum()
				weights(o, append(cs, cs[r.Intn(len(cs))]))
				for _, u := range []*spn.Sum{s, o} {
					for k := range u.Weights() {
						u.Weights()[k] *= low
					}
				}
				top := spn.NewSum()
				weights(top, []spn.SPN{s, o})
				s = top
			}
			shared = append(shared, s)
		} else {
			shared = append(shared, cs[0])
		}
	}
	root := spn.NewSum()
	var ps []spn.SPN
	for j := 0; j < fan; j++ {
		p := spn.NewProduct()
		for v := 0; v < nv; v++ {
			if r.Intn(2) == 0 {
				p.AddChild(shared[v])
			} else {
				p.AddChild(mk(v))
			}
		}
		ps = append(ps, p)
	}
	weights(root, ps)
	return root, info, nv
}

// share is exp(l) in millionths, where it should be at most one.
func share(l float64) int {
	f := 1e6 * math.Exp(l)
	if math.IsNaN(f) || f > 1e8 {
		f = 1e8
	}
	return int(math.Round(f))
}

func realEvidence(t *T, nv, q int) spn.VarSet {
	ev := spn.VarSet{}
	for v := 0; v < nv; v++ {
		if t.R.Float64() < []float64{0.2, 0.8, 1}[q] {
			ev[v] = t.R.Intn(3)
		}
	}
	return ev
}

// reader gives the entries of a table, NaN where there is none, and the nodes of a network in order.
func reader(S spn.SPN, tab spn.StorerTable) (func(spn.SPN) float64, []spn.SPN, map[spn.SPN]int) {
	_, order := Snapshot(S)
	idx := map[spn.SPN]int{}
	for i, s := range order {
		idx[s] = i + 1
	}
	return func(s spn.SPN) float64 {
		v, ok := tab.Single(s)
		if !ok {
			return math.NaN()
		}
		return v
	}, order, idx
}

func kids(s spn.SPN, idx map[spn.SPN]int) []int {
	ch := []int{}
	for _, c := range s.Ch() {
		ch = append(ch, idx[c])
	}
	return ch
}

// local emits what f records of a network, and tells whether to go on.
func (t *T) local(what string, i, q int, e Ev, f func()) bool {
	err := Call(f)
	if err != "" {
		e["err"] = err
	}
	t.Emit(e)
	t.Case(what, fmt.Sprint(i, q))
	return err == ""
}

// localCase checks soft inference on a network with real parameters, node by node.
func localCase(t *T, i int) bool {
	S, info, nv := realNet(t, i, false)
	for q := 0; q < 3; q++ {
		ev := realEvidence(t, nv, q)
		e := Ev{"op": "local", "ev": Pairs(ev)}
		yv := t.R.Intn(nv)
		if !t.local("real-valued network", i, q, e, func() {
			st := spn.NewStorer()
			_, tk := spn.StoreInference(S, ev, -1, st)
			tab, _ := st.Table(tk)
			val, order, idx := reader(S, tab)
			nodes := make([]Ev, len(order))
			for i, s := range order {
				v := val(s)
				x := Ev{"v": fixed4(v), "ch": kids(s, idx)}
				if l, ok := info[s]; ok {
					u, set := ev[l.v]
					l.event(x, v, u, set, false)
				} else if y, ok := s.(*spn.Sum); ok {
					x["t"] = "sum"
					sh, zero := []int{}, []bool{}
					for j, c := range s.Ch() {
						wt := y.Weights()[j]
						zero = append(zero, wt == 0)
						sh = append(sh, share(math.Log(wt)+val(c)-v))
					}
					x["sh"], x["zero"] = sh, zero
				} else {
					x["t"] = "prod"
				}
				nodes[i] = x
			}
			e["nodes"] = nodes
			f := copyVS(ev)
			delete(f, yv)
			roots := []int{fixed4(S.Value(ev)), fixed4(spn.Inference(S, ev))}
			if u, ok := ev[yv]; ok {
				roots = append(roots, fixed4(spn.InferenceY(S, f, yv, u)))
			}
			e["roots"] = roots
		}) {
			return false
		}
	}
	return true
}

// fine is x - y in units of 1e-10, as far as it goes.
func fine(x, y float64) int {
	if x == y {
		return 0
	}
	d := (x - y) * 1e10
	if math.IsNaN(d) || d > 1e9 {
		return 1000000000
	}
	if d < -1e9 {
		return -1000000000
	}
	return int(math.Round(d))
}

// localMap checks MAP on a network with real parameters, node by node. Gaussians have whole means,
// so that a state can attain them.
func localMap(t *T, i int) bool {
	S, info, nv := realNet(t, i, true)
	for q := 0; q < 3; q++ {
		ev := realEvidence(t, nv, q)
		e := Ev{"op": "localmap", "ev": Pairs(ev), "n": nv}
		if !t.local("real-valued MAP", i, q, e, func() {
			st := spn.NewStorer()
			_, tk, state := spn.StoreMAP(S, copyVS(ev), -1, st)
			tab, _ := st.Table(tk)
			val, order, idx := reader(S, tab)
			nodes := make([]Ev, len(order))
			for i, s := range order {
				v := val(s)
				x := Ev{"v": fixed4(v), "ch": kids(s, idx)}
				if l, ok := info[s]; ok {
					u, set := ev[l.v]
					l.event(x, v, u, set, true)
				} else if y, ok := s.(*spn.Sum); ok {
					x["t"] = "max"
					of := []int{}
					for j, c := range s.Ch() {
						of = append(of, fine(math.Log(y.Weights()[j])+val(c), v))
					}
					x["of"] = of
				} else {
					x["t"] = "prod"
				}
				nodes[i] = x
			}
			e["nodes"] = nodes
			am, v := S.ArgMax(copyVS(ev))
			e["roots"] = []int{fixed4(S.Max(copyVS(ev))), fixed4(v)}
			// with everything known, the greatest term is the value of a state
			top := val(S)
			e["states"] = []Ev{{"s": Pairs(state), "v": fine(S.Max(state), top)}, {"s": Pairs(am), "v": fine(S.Max(am), top)}}
			picks := [][3]int{}
			for s, j := range spn.TraceMAP(S, copyVS(ev)) {
				d := 1000000000
				if y, ok := s.(*spn.Sum); ok && j >= 0 && j < len(s.Ch()) {
					d = fine(math.Log(y.Weights()[j])+val(s.Ch()[j]), val(s))
				}
				picks = append(picks, [3]int{idx[s], j, d})
			}
			e["picks"] = picks
		}) {
			return false
		}
	}
	return true
}

// localDerive checks derivatives on a network with real parameters, node by node.
func localDerive(t *T, i int) bool {
	S, _, nv := realNet(t, i, false)
	for q := 0; q < 3; q++ {
		ev := realEvidence(t, nv, q)
		e := Ev{"op": "localderive"}
		if !t.local("real-valued derivative", i, q, e, func() {
			st := spn.NewStorer()
			_, itk := spn.StoreInference(S, ev, -1, st)
			_, dtk := learn.DeriveSPN(S, st, -1, itk, nil)
			_, wtk := learn.DeriveWeights(S, st, -1, dtk, itk, nil)
			it, _ := st.Table(itk)
			dt, _ := st.Table(dtk)
			wt, _ := st.Table(wtk)
			val, order, _ := reader(S, it)
			der, _, _ := reader(S, dt)
			type from struct {
				sh    []int
				zeros int
			}
			to := map[spn.SPN]*from{}
			nodes := make([]Ev, len(order))
			for _, s := range order {
				to[s] = &from{sh: []int{}}
			}
			add := func(c spn.SPN, l float64) {
				if math.IsInf(l, -1) {
					to[c].zeros++
				} else {
					to[c].sh = append(to[c].sh, share(l-der(c)))
				}
			}
			for i, s := range order {
				x := Ev{"wd": [][2]int{}}
				if y, ok := s.(*spn.Sum); ok {
					wd := [][2]int{}
					for j, c := range s.Ch() {
						add(c, math.Log(y.Weights()[j])+der(s))
						g, ok := wt.Entry(s, j)
						if !ok {
							g = math.NaN()
						}
						wd = append(wd, [2]int{fixed4(g), fixed4(val(c) + der(s))})
					}
					x["wd"] = wd
				} else {
					for j, c := range s.Ch() {
						l := der(s)
						for k, o := range s.Ch() {
							if k != j {
								l += val(o)
							}
						}
						add(c, l)
					}
				}
				x["v"] = fixed4(der(s))
				nodes[i] = x
			}
			for i, s := range order {
				nodes[i]["sh"], nodes[i]["zeros"] = to[s].sh, to[s].zeros
			}
			e["nodes"] = nodes
		}) {
			return false
		}
	}
	return true
}

// localBatch gathers the derivatives of several assignments, and tells what share of the total each has.
func localBatch(t *T, i int) bool {
	S, _, nv := realNet(t, i, false)
	e := Ev{"op": "localbatch"}
	return t.local("real-valued batch", i, 0, e, func() {
		st := spn.NewStorer()
		itk, dtk, btk := st.NewTicket(), st.NewTicket(), -1
		var single []spn.StorerTable
		for q := 0; q < 2+t.R.Intn(4); q++ {
			ev := realEvidence(t, nv, q%3)
			st.ResetTickets(itk, dtk)
			spn.StoreInference(S, ev, itk, st)
			learn.DeriveSPN(S, st, dtk, itk, nil)
			_, wtk := learn.DeriveWeights(S, st, -1, dtk, itk, nil)
			wt, _ := st.Table(wtk)
			single = append(single, wt)
			_, btk = learn.DeriveWeightsBatch(S, st, btk, dtk, itk, nil)
		}
		bt, _ := st.Table(btk)
		_, order := Snapshot(S)
		out := []Ev{}
		for _, s := range order {
			if s.Type() != "sum" {
				continue
			}
			for j := range s.Ch() {
				g, ok := bt.Entry(s, j)
				sh := []int{}
				for _, wt := range single {
					if l, ok := wt.Entry(s, j); !ok {
						sh = append(sh, -1)
					} else if !math.IsInf(l, -1) {
						sh = append(sh, share(l-g))
					}
				}
				out = append(out, Ev{"ok": ok, "none": math.IsInf(g, -1), "sh": sh})
			}
		}
		e["edges"] = out
	})
}

func driveC02(t *T) {
	one := func(w *World, k int, ev spn.VarSet) {
		w.query("max", k, ev, func(e Ev) { e["res"] = Num(w.nodes[k-1].Max(ev), w.den[k-1]) })
		w.query("argmax", k, ev, func(e Ev) {
			st, v := w.nodes[k-1].ArgMax(ev)
			e["res"], e["state"] = Num(v, w.den[k-1]), Pairs(st)
		})
		w.query("storemap", k, ev, func(e Ev) {
			st := spn.NewStorer()
			tk := -1
			if t.R.Intn(2) == 0 {
				tk = st.NewTicket()
			}
			if tk >= 0 && t.R.Intn(2) == 0 { // a ticket that has been used for something else
				if t.R.Intn(2) == 0 {
					spn.StoreInference(w.nodes[k-1], w.net.Evidence(t.R), tk, st)
				} else {
					spn.StoreMAP(w.nodes[k-1], w.net.Evidence(t.R), tk, st)
				}
			}
			S, r, state := spn.StoreMAP(w.nodes[k-1], ev, tk, st)
			e["tkok"] = S == w.nodes[k-1] && ((tk < 0 && r >= 0) || r == tk)
			tab, ok := st.Table(r)
			if !ok {
				e["tkok"] = false
			}
			e["table"], e["state"] = w.tableNums(tab), Pairs(state)
		})
		w.query("tracemap", k, ev, func(e Ev) {
			P := spn.TraceMAP(w.nodes[k-1], ev)
			picks := map[int]int{}
			for s, i := range P {
				picks[w.idx[s]] = i + 1
			}
			e["picks"] = Pairs(picks)
		})
	}
	for _, n := range t.FitNets() {
		w := newWorld(t, n)
		for _, ev := range n.allEvidence() {
			one(w, len(n), ev)
		}
		if w.dead {
			return
		}
	}
	for i := 0; i < t.Pick(300, 5000); i++ {
		n := GenMix(t.R)
		t.Sample(n.JSON())
		w := newWorld(t, n)
		for j := 0; j < 4; j++ {
			one(w, w.pickNode(), n.Evidence(t.R))
			if w.dead {
				return
			}
		}
		w.untouched()
	}
	for i := 0; i < t.Pick(120, 1200); i++ {
		if !localMap(t, i) {
			return
		}
	}
}

func driveC03(t *T) {
	sorts := []struct {
		name string
		f    func(spn.SPN, common.Collection) common.Collection
	}{
		{"TopSortTarjanRec", spn.TopSortTarjanRec},
		{"TopSortTarjan", spn.TopSortTarjan},
		{"TopSortTarjanFunc", func(S spn.SPN, c common.Collection) common.Collection {
			return spn.TopSortTarjanFunc(S, c, func(spn.SPN) bool { return true })
		}},
		{"TopSortDFS", spn.TopSortDFS},
		{"PostOrder", spn.PostOrder},
	}
	drain := func(w *World, c common.Collection) []int {
		out := []int{}
		for !c.Empty() {
			out = append(out, w.idx[c.Take().(spn.SPN)])
		}
		return out
	}
	rev := func(a []int) []int {
		b := make([]int, len(a))
		for i, x := range a {
			b[len(a)-1-i] = x
		}
		return b
	}
	one := func(w *World, k int, full bool) {
		S := w.nodes[k-1]
		for _, s := range sorts {
			for m := 0; m < 3; m++ {
				if !full && t.R.Intn(3) != 0 {
					continue
				}
				if w.dead {
					return
				}
				e := Ev{"op": "topsort", "k": k, "api": s.name, "into": m}
				err := Call(func() {
					switch m {
					case 0:
						e["order"] = drain(w, s.f(S, nil))
					case 1:
						q := &common.Queue{}
						s.f(S, q)
						e["order"] = drain(w, q)
					case 2: // a stack gives parents first
						q := &common.Stack{}
						s.f(S, q)
						e["order"] = rev(drain(w, q))
					}
				})
				w.emit(e, err)
				t.Case("sort "+s.name, "")
			}
		}
		if w.dead {
			return
		}
		stop := 1 + t.R.Intn(len(w.nodes))
		e := Ev{"op": "tophalt", "k": k, "stop": stop}
		err := Call(func() {
			q := &common.Queue{}
			calls := []int{}
			spn.TopSortTarjanFunc(S, q, func(s spn.SPN) bool {
				calls = append(calls, w.idx[s])
				return len(calls) < stop
			})
			e["calls"], e["order"] = calls, drain(w, q)
		})
		w.emit(e, err)
		for m := 0; m < 4; m++ {
			if w.dead {
				return
			}
			breadth := m%2 == 0
			stop := 0
			skip := []int{}
			isSkip := map[int]bool{}
			if m >= 2 || t.R.Intn(2) == 0 {
				if t.R.Intn(2) == 0 {
					stop = 1 + t.R.Intn(len(w.nodes))
				}
				for j := 1; j <= len(w.nodes); j++ {
					if t.R.Intn(5) == 0 {
						skip = append(skip, j)
						isSkip[j] = true
					}
				}
			}
			e := Ev{"op": "search", "k": k, "breadth": breadth, "stop": stop, "skip": skip}
			err := Call(func() {
				order := []int{}
				f := func(s spn.SPN) int {
					j := w.idx[s]
					order = append(order, j)
					if stop > 0 && len(order) == stop {
						return 1
					}
					if isSkip[j] {
						return -1
					}
					return 0
				}
				if breadth {
					spn.BreadthFirst(S, f)
				} else {
					spn.DepthFirst(S, f)
				}
				e["order"] = order
			})
			w.emit(e, err)
			t.Case("search", "")
		}
		if w.dead {
			return
		}
		e = Ev{"op": "count", "k": k}
		err = Call(func() { e["sums"], e["prods"], e["leaves"] = spn.CountNodes(S) })
		w.emit(e, err)
		e = Ev{"op": "height", "k": k, "api": "ComputeHeight"}
		err = Call(func() { e["h"] = spn.ComputeHeight(S) })
		w.emit(e, err)
		if len(w.nodes) < 30 {
			e = Ev{"op": "height", "k": k, "api": "Height"}
			err = Call(func() { e["h"] = S.Height() })
			w.emit(e, err)
		}
	}
	for _, n := range t.SpecNets() {
		w := newWorld(t, n)
		one(w, len(n), false)
		if w.dead {
			return
		}
	}
	for i := 0; i < t.Pick(260, 4000); i++ {
		n := GenMix(t.R)
		if i%3 == 0 {
			n = GenDag(t.R, 4+t.R.Intn(20))
		}
		if i%50 == 10 {
			n = GenMany(t.R, 280+t.R.Intn(400))
		}
		if i%12 == 5 {
			n = GenChains(t.R)
		}
		t.Sample(n.JSON())
		w := newWorld(t, n)
		one(w, len(n), true)
		one(w, w.pickNode(), false)
		w.untouched()
		if w.dead {
			return
		}
	}
}

// GenDag generates an arbitrary DAG for structure only (values would not fit).
func GenDag(r *rand.Rand, nodes int) Net {
	var n Net
	for i := 0; i < nodes; i++ {
		if i < 2 || r.Intn(5) == 0 {
			n = append(n, NodeSpec{T: "ind", Var: r.Intn(4), Val: r.Intn(2)})
			continue
		}
		k := 1 + r.Intn(4)
		ch := make([]int, k)
		w := make([]int, k)
		for j := range ch {
			ch[j] = 1 + r.Intn(len(n))
			w[j] = 1
		}
		if r.Intn(2) == 0 {
			n = append(n, NodeSpec{T: "prod", Ch: ch})
		} else {
			n = append(n, NodeSpec{T: "sum", Ch: ch, W: w})
		}
	}
	for len(n[len(n)-1].Ch) == 0 {
		n = append(n, NodeSpec{T: "prod", Ch: []int{len(n), 1}})
	}
	return n.prune()
}

// GenChains builds long chains of very different lengths, side by side and one on top of another.
func GenChains(r *rand.Rand) Net {
	n := Net{{T: "ind"}}
	tops := []int{1}
	for c := 2 + r.Intn(5); c > 0; c-- {
		at := tops[r.Intn(len(tops))]
		for k := r.Intn(30); k > 0; k-- {
			x := NodeSpec{T: "prod", Ch: []int{at}}
			if r.Intn(2) == 0 {
				x.T, x.W = "sum", []int{1}
			}
			n = append(n, x)
			at = len(n)
		}
		tops = append(tops, at)
	}
	r.Shuffle(len(tops), func(i, j int) { tops[i], tops[j] = tops[j], tops[i] })
	n = append(n, NodeSpec{T: "prod", Ch: tops})
	return n.prune()
}

// GenMany builds a layered network with many nodes: children picked among recent ones, none left out.
func GenMany(r *rand.Rand, nodes int) Net {
	var n Net
	var open []int
	for len(n) < nodes || len(open) > 1 {
		if len(n) < nodes/2 {
			n = append(n, NodeSpec{T: "ind", Var: r.Intn(40), Val: r.Intn(2)})
			open = append(open, len(n))
			continue
		}
		k := 1 + r.Intn(4)
		if r.Intn(20) == 0 {
			k = 10 + r.Intn(20)
		}
		var ch []int
		for j := 0; j < k && len(open) > 0; j++ {
			a := r.Intn(len(open))
			if r.Intn(2) == 0 {
				a = 0
			}
			ch = append(ch, open[a])
			open = append(open[:a], open[a+1:]...)
		}
		if r.Intn(2) == 0 {
			ch = append(ch, 1+r.Intn(len(n)))
		}
		w := make([]int, len(ch))
		for j := range w {
			w[j] = 1
		}
		if r.Intn(2) == 0 {
			n = append(n, NodeSpec{T: "prod", Ch: ch})
		} else {
			n = append(n, NodeSpec{T: "sum", Ch: ch, W: w})
		}
		open = append(open, len(n))
	}
	return n
}

func driveC04(t *T) {
	full := func(w *World, k int) {
		if w.dead {
			return
		}
		e := Ev{"op": "scope", "k": k, "api": "ComputeScope"}
		err := Call(func() { e["sc"] = ints(spn.ComputeScope(w.nodes[k-1])) })
		w.emit(e, err)
		if w.dead {
			return
		}
		e = Ev{"op": "scopes", "k": k}
		err = Call(func() {
			scs := make([][]int, len(w.nodes))
			for i, s := range w.nodes {
				scs[i] = ints(s.Sc())
			}
			e["scs"] = scs
		})
		w.emit(e, err)
	}
	valid := func(w *World) {
		if w.dead {
			return
		}
		e := Ev{"op": "valid"}
		err := Call(func() {
			e["complete"] = spn.Complete(w.root())
			e["decomposable"] = spn.Decomposable(w.root())
		})
		w.emit(e, err)
		t.Case("validity", "")
	}
	run := func(n Net, loose bool) bool {
		w := newWorld(t, n)
		w.loose = loose
		if n.valid() && t.R.Intn(2) == 0 {
			// before anything was computed, the accessors of a valid network give the scope
			for k := len(n); k >= 1 && k > len(n)-3; k-- {
				e := Ev{"op": "scope", "k": k, "api": "Sc"}
				err := Call(func() { e["sc"] = ints(w.nodes[k-1].Sc()) })
				w.emit(e, err)
				if w.dead {
					return false
				}
			}
		}
		switch t.R.Intn(3) {
		case 0:
			valid(w)
			full(w, w.pickNode())
		case 1:
			full(w, w.pickNode())
			valid(w)
		default:
			valid(w)
		}
		for j := 0; j < t.R.Intn(4); j++ {
			w.grow()
			if t.R.Intn(2) == 0 {
				full(w, w.pickNode())
			}
			full(w, len(n))
			valid(w)
		}
		return !w.dead
	}
	for _, n := range t.SpecNets() {
		if !run(n, false) {
			return
		}
	}
	for i := 0; i < t.Pick(80, 1500); i++ {
		n := GenScopes(t.R, 3+t.R.Intn([]int{4, 12, 40, 100}[i%4]), 2+t.R.Intn(8))
		for j := t.R.Intn(3); j > 0; j-- {
			n = n.break1(t.R, true)
		}
		if !run(n, true) {
			return
		}
	}
	for i := 0; i < t.Pick(8, 60); i++ {
		if !run(GenForest(t.R, 60+t.R.Intn(60), i%4 > 0), true) {
			return
		}
	}
	for i := 0; i < t.Pick(500, 8000); i++ {
		n := GenMix(t.R)
		switch i % 4 {
		case 1:
			n = GenValid(t.R, netOpts{nvars: 2 + t.R.Intn(4), maxNodes: 20, share: 0.5, norm: true})
		case 2, 3: // one defect somewhere inside a valid network
			n = GenValid(t.R, netOpts{nvars: 2 + t.R.Intn(4), maxNodes: 20, share: 0.3, leaf: "ind"}).break1(t.R, false)
		}
		t.Sample(n.JSON())
		if !run(n, false) {
			return
		}
	}
}

// GenForest puts many small structures over variables of their own under one product, one of them with a defect.
func GenForest(r *rand.Rand, blocks int, flaw bool) Net {
	var n Net
	top := NodeSpec{T: "prod"}
	bad := r.Intn(blocks)
	for b := 0; b < blocks; b++ {
		m := GenScopes(r, 2+r.Intn(3), 2+r.Intn(2))
		if b == bad && flaw {
			for try := 0; try < 30 && m.valid(); try++ {
				m = m.break1(r, true)
			}
		}
		at := len(n)
		for _, x := range m {
			x.Var += 5 * b
			ch := append([]int(nil), x.Ch...)
			for j := range ch {
				ch[j] += at
			}
			x.Ch = ch
			n = append(n, x)
		}
		top.Ch = append(top.Ch, len(n))
	}
	return append(n, top)
}

// GenScopes generates a structure over many variables: complete and decomposable, with wide nodes.
func GenScopes(r *rand.Rand, nv, fan int) Net {
	var n Net
	pool := map[string][]int{}
	add := func(key string, x NodeSpec) int {
		n = append(n, x)
		pool[key] = append(pool[key], len(n))
		return len(n)
	}
	var node func(vs []int, depth int) int
	node = func(vs []int, depth int) int {
		key := regionKey(vs)
		if p := pool[key]; len(p) > 0 && (depth > 4 || r.Intn(2) == 0) {
			return p[r.Intn(len(p))]
		}
		if len(vs) == 1 && (depth > 4 || r.Intn(3) > 0) {
			return add(key, NodeSpec{T: "ind", Var: vs[0], Val: r.Intn(2)})
		}
		k := 1 + r.Intn(fan)
		if len(vs) > 1 && (depth > 3 || r.Intn(2) == 0) { // a product over a split into k parts
			var ch []int
			rest := vs
			for i := 1; i < k && len(rest) > 1; i++ {
				m := 1 + r.Intn(len(rest)-1)
				if depth > 3 {
					m = 1
				}
				ch = append(ch, node(rest[:m:m], depth+1))
				rest = rest[m:]
			}
			if depth > 4 { // leaves at last
				for ; len(rest) > 1; rest = rest[1:] {
					ch = append(ch, node(rest[:1:1], 9))
				}
			}
			if len(ch) > 0 {
				ch = append(ch, node(rest, depth+1))
				return add(key, NodeSpec{T: "prod", Ch: ch})
			}
		}
		var ch, w []int
		if depth > 6 {
			k = 1
		}
		for i := 0; i < k; i++ {
			ch, w = append(ch, node(vs, depth+1)), append(w, 1)
		}
		return add(key, NodeSpec{T: "sum", Ch: ch, W: w})
	}
	vs := make([]int, nv)
	for i := range vs {
		vs[i] = i
	}
	if r.Intn(2) == 0 {
		vs = r.Perm(3 * nv)[:nv]
	}
	for {
		n, pool = nil, map[string][]int{}
		if k := node(vs, 0); len(n) < 120 {
			return n[:k].prune()
		}
	}
}

// valid: complete and decomposable.
func (n Net) valid() bool {
	sc := make([]map[int]bool, len(n))
	for i, x := range n {
		sc[i] = map[int]bool{}
		if len(x.Ch) == 0 {
			sc[i][x.Var] = true
			continue
		}
		total := 0
		for _, c := range x.Ch {
			total += len(sc[c-1])
			for v := range sc[c-1] {
				sc[i][v] = true
			}
		}
		if x.T == "sum" && total != len(x.Ch)*len(sc[i]) {
			return false
		}
		if x.T == "prod" && total != len(sc[i]) {
			return false
		}
	}
	return true
}

// break1 gives one inner node a child it should not have.
func (n Net) break1(r *rand.Rand, loose bool) Net {
	for try := 0; try < 20; try++ {
		k := 1 + r.Intn(len(n))
		if len(n[k-1].Ch) == 0 {
			continue
		}
		m := append(Net(nil), n...)
		m[k-1].Ch = append([]int(nil), m[k-1].Ch...)
		m[k-1].Ch[r.Intn(len(m[k-1].Ch))] = 1 + r.Intn(k-1)
		m = m.prune()
		if loose || m.fits() {
			return m
		}
	}
	return n
}

func ints(a []int) []int {
	if a == nil {
		return []int{}
	}
	return a
}

// genReal builds a network with arbitrary real parameters, out of the structure of n.
func genReal(r *rand.Rand, n Net) spn.SPN {
	nodes := make([]spn.SPN, len(n))
	fl := func() float64 {
		switch r.Intn(6) {
		case 0:
			return math.Pow(10, -float64(1+r.Intn(300)))
		case 1:
			return 1.0 / 3.0
		case 2:
			return math.Nextafter(1, 0)
		case 3:
			return 0
		default:
			return r.Float64()
		}
	}
	anyW := r.Intn(4) == 0
	for i, x := range n {
		switch x.T {
		case "sum":
			s := spn.NewSum()
			for _, c := range x.Ch {
				w := fl()
				if anyW { // weights may be any number
					w *= []float64{1, -1, 1e6, 1e300, -1e-300, 12345.678}[r.Intn(6)]
				}
				s.AddChildW(nodes[c-1], w)
			}
			nodes[i] = s
		case "prod":
			p := spn.NewProduct()
			for _, c := range x.Ch {
				p.AddChild(nodes[c-1])
			}
			nodes[i] = p
		default:
			switch r.Intn(4) {
			case 0:
				u := r.Intn(4)
				if r.Intn(4) == 0 {
					u = farVals[r.Intn(len(farVals))]
				}
				nodes[i] = spn.NewIndicator(x.Var, u)
			case 1:
				sd := r.Float64() * 10
				if r.Intn(5) == 0 {
					sd = 0
				}
				nodes[i] = spn.NewGaussianParams(x.Var, r.NormFloat64()*math.Pow(10, float64(r.Intn(12)-4)), sd)
			default:
				pr := make([]float64, 4+r.Intn(3))
				if r.Intn(60) == 0 {
					pr = make([]float64, 4+r.Intn(600))
				}
				var s float64
				for j := range pr {
					pr[j] = fl()
					s += pr[j]
				}
				if s > 0 {
					for j := range pr {
						pr[j] /= s
					}
				} else {
					pr[0] = 1
				}
				nodes[i] = spn.NewMultinomial(x.Var, pr)
			}
		}
	}
	return nodes[len(nodes)-1]
}

func driveC05(t *T) {
	var prev []byte
	var prevImg interface{}
	total := t.Pick(500, 6000)
	nets := t.SpecNets()
	for i := 0; i < total+len(nets); i++ {
		var n Net
		if i < len(nets) {
			n = nets[i]
		} else {
			n = GenMix(t.R)
			if i%3 == 0 {
				n = GenDag(t.R, 4+t.R.Intn(40))
			}
			if i%60 == 0 {
				n = GenMany(t.R, 250+t.R.Intn(200))
			}
			if i%240 == 30 {
				n = GenMany(t.R, 520+t.R.Intn(1500))
			}
		}
		S := genReal(t.R, n)
		t.Case("network", n.Key())
		t.Sample(n.JSON())
		e := Ev{"op": "image"}
		dead := false
		step := func(e Ev, f func()) {
			if dead {
				return
			}
			if err := Call(f); err != "" {
				e["err"] = err
				dead = true
			}
			t.Emit(e)
		}
		var img interface{}
		step(e, func() { img, _ = Snapshot(S); e["image"] = img })
		vals := func(Z spn.SPN, evs []spn.VarSet) []int {
			out := []int{}
			for _, ev := range evs {
				out = append(out, fixed4(spn.Inference(Z, ev)))
			}
			return out
		}
		vars, _ := n.Vars()
		var evs []spn.VarSet
		for j := 0; j < 3; j++ {
			ev := spn.VarSet{}
			for _, v := range vars {
				if t.R.Intn(2) == 0 {
					ev[v] = t.R.Intn(4)
				}
			}
			evs = append(evs, ev)
		}
		var buf []byte
		e = Ev{"op": "loaded", "how": "memory"}
		step(e, func() {
			buf = spn.Marshal(S)
			Z := spn.Unmarshal(buf)
			e["image"], _ = Snapshot(Z)
			e["before"], e["after"] = vals(S, evs), vals(Z, evs)
		})
		e = Ev{"op": "loaded", "how": "saved again", "before": []int{}, "after": []int{}}
		step(e, func() {
			Z := spn.Unmarshal(spn.Marshal(spn.Unmarshal(buf)))
			e["image"], _ = Snapshot(Z)
		})
		e = Ev{"op": "loaded", "how": "file", "before": []int{}, "after": []int{}}
		step(e, func() {
			f := filepath.Join(t.Dir, fmt.Sprintf("net%d.spn", t.R.Intn(3)))
			if err := gio.SaveSPN(f, S); err != nil {
				panic(err)
			}
			Z, err := gio.LoadSPN(f)
			if err != nil {
				panic(err)
			}
			e["image"], _ = Snapshot(Z)
			e["after"], e["before"] = vals(Z, evs), vals(S, evs)
			if t.R.Intn(2) == 0 { // the other way of reading a file; reading twice does no harm
				Z = gio.ReadFromFile(f)
				Z = gio.ReadFromFile(f)
				e["image"], _ = Snapshot(Z)
			}
		})
		e = Ev{"op": "untouched"} // saving changed nothing in memory
		step(e, func() { e["image"], _ = Snapshot(S) })
		if prev != nil && t.R.Intn(3) == 0 { // an older buffer still gives the older network
			e = Ev{"op": "image", "image": prevImg}
			step(e, func() {})
			e = Ev{"op": "loaded", "how": "older", "before": []int{}, "after": []int{}}
			step(e, func() { e["image"], _ = Snapshot(spn.Unmarshal(prev)) })
		}
		prev, prevImg = buf, img
		if dead {
			return
		}
	}
}

func driveC07(t *T) {
	for _, n := range t.FitNets() {
		if !derive1(t, n, true) {
			return
		}
	}
	for i := 0; i < t.Pick(350, 5000); i++ {
		n := GenMix(t.R)
		t.Sample(n.JSON())
		if !derive1(t, n, false) {
			return
		}
	}
	for i := 0; i < t.Pick(60, 800); i++ {
		if !localDerive(t, i) || !localBatch(t, i) {
			return
		}
	}
}

func derive1(t *T, n Net, all bool) bool {
	w := newWorld(t, n)
	S := w.root()
	dR := w.den[len(n)-1]
	st := spn.NewStorer()
	itk, dtk, wtk, btk, htk := st.NewTicket(), st.NewTicket(), st.NewTicket(), st.NewTicket(), st.NewTicket()
	coll := func() common.Collection {
		switch t.R.Intn(3) {
		case 0:
			return nil
		case 1:
			return &common.Queue{}
		}
		return &common.Stack{}
	}
	entries := func(tk int, f func(k int, s spn.SPN, v float64) int) [][]int {
		tab, _ := st.Table(tk)
		out := make([][]int, len(w.nodes))
		for i, s := range w.nodes {
			out[i] = []int{}
			m, ok := tab.Value(s)
			sum, isSum := s.(*spn.Sum)
			if !ok {
				if isSum {
					out[i] = make([]int, len(sum.Ch()))
				}
				continue
			}
			if !isSum {
				out[i] = append(out[i], bad)
				continue
			}
			for j := range sum.Ch() {
				v, ok := m[j]
				if !ok {
					v = math.Inf(-1)
				}
				out[i] = append(out[i], f(i, s, v))
			}
			for j := range m {
				if j < 0 || j >= len(sum.Ch()) {
					out[i] = append(out[i], bad)
				}
			}
		}
		return out
	}
	var evs []spn.VarSet
	if all {
		evs = n.allEvidence()
	}
	if !all || len(evs) > 3 {
		evs = nil
		for j := 0; j < 3; j++ {
			evs = append(evs, n.Evidence(t.R))
		}
	}
	for _, ev := range evs {
		if w.dead {
			return false
		}
		ev := ev
		e := Ev{"op": "derive", "ev": Pairs(ev)}
		err := Call(func() {
			st.ResetTickets(itk, dtk, wtk)
			spn.StoreInference(S, ev, itk, st)
			if t.R.Intn(4) == 0 {
				_, dtk = learn.DeriveSPN(S, st, -1, itk, coll())
			} else if Z, tk := learn.DeriveSPN(S, st, dtk, itk, coll()); Z != S || tk != dtk {
				panic("wrong ticket")
			}
			tab, _ := st.Table(dtk)
			d := make([]int, len(n))
			for i, s := range w.nodes {
				v, ok := tab.Single(s)
				if !ok {
					d[i] = -2
				} else {
					d[i] = Num(v, dR-w.den[i])
				}
			}
			e["d"] = d
		})
		w.emit(e, err)
		t.Case("derivative", "")
		if w.dead {
			return false
		}
		lin := func(k int, s spn.SPN, v float64) int { return Num(v, dR) }
		e = Ev{"op": "derivew", "ev": Pairs(ev)}
		err = Call(func() {
			tk := wtk
			if t.R.Intn(3) == 0 {
				tk = -1
			}
			_, tk = learn.DeriveWeights(S, st, tk, dtk, itk, coll())
			e["wts"] = entries(tk, lin)
		})
		w.emit(e, err)
		if w.dead {
			return false
		}
		e = Ev{"op": "deriveb", "ev": Pairs(ev)}
		err = Call(func() {
			_, btk = learn.DeriveWeightsBatch(S, st, btk, dtk, itk, coll())
			e["wts"] = entries(btk, lin)
		})
		w.emit(e, err)
		if w.dead {
			return false
		}
		if len(n) < 8 && t.R.Intn(60) == 0 { // a long count
			m := 50 + t.R.Intn(300)
			e = Ev{"op": "derivehn", "ev": Pairs(ev), "times": m}
			err = Call(func() {
				tk := -1
				for j := 0; j < m; j++ {
					tk = learn.DeriveHard(S, st, tk, ev)
				}
				c := entries(tk, func(k int, s spn.SPN, v float64) int {
					if math.IsInf(v, -1) {
						return 0
					}
					return Lin(v, 0)
				})
				for i, x := range n {
					if x.T != "sum" {
						c[i] = make([]int, len(x.Ch))
					}
				}
				e["counts"] = c
			})
			w.emit(e, err)
			if w.dead {
				return false
			}
		}
		e = Ev{"op": "deriveh", "ev": Pairs(ev)}
		err = Call(func() {
			htk = learn.DeriveHard(S, st, htk, ev)
			c := entries(htk, func(k int, s spn.SPN, v float64) int {
				if math.IsInf(v, -1) {
					return 0
				}
				return Lin(v, 0)
			})
			for i, x := range n { // products have no counts
				if x.T == "prod" {
					c[i] = append(c[i], make([]int, len(x.Ch))...)
				}
			}
			e["counts"] = c
		})
		w.emit(e, err)
		if w.dead {
			return false
		}
		if t.R.Intn(6) == 0 {
			if t.R.Intn(2) == 0 {
				btk, htk = -1, -1
			} else {
				st.ResetTickets(btk, htk)
			}
			t.Emit(Ev{"op": "forget"})
		}
	}
	w.untouched()
	return !w.dead
}
