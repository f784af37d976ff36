package main

import (
	"encoding/json"
	"math"

	"github.com/RenatoGeh/gospn/common"
	"github.com/RenatoGeh/gospn/learn"
	"github.com/RenatoGeh/gospn/learn/parameters"
	"github.com/RenatoGeh/gospn/spn"
	"github.com/RenatoGeh/gospn/sys"
)

func init() {
	drivers["C08"] = func(t *T) { driveLearn(t, false) }
	drivers["C09"] = func(t *T) { driveLearn(t, true) }
	drivers["C10"] = driveC10
}

// edge is a bound on the derivative of every weight, as a real number.
func (n Net) maxGrad() float64 {
	v, d := make([]float64, len(n)), make([]float64, len(n))
	for i, x := range n {
		v[i] = 1
		switch x.T {
		case "prod":
			for _, c := range x.Ch {
				v[i] *= v[c-1]
			}
		case "sum":
			v[i] = 0
			for j, c := range x.Ch {
				v[i] += v[c-1] * float64(x.W[j]) / math.Ldexp(1, x.Wd)
			}
		}
	}
	d[len(n)-1] = 1
	m := 0.0
	for i := len(n) - 1; i >= 0; i-- {
		for j, c := range n[i].Ch {
			if n[i].T == "sum" {
				m = math.Max(m, d[i]*v[c-1])
				d[c-1] += d[i] * float64(n[i].W[j]) / math.Ldexp(1, n[i].Wd)
			} else {
				d[c-1] += d[i] * v[i] / v[c-1]
			}
		}
	}
	return m
}

// positive tells whether the evidence has positive value; it only selects inputs.
func (n Net) positive(ev spn.VarSet) bool {
	v := make([]bool, len(n))
	for i, x := range n {
		switch x.T {
		case "ind":
			u, ok := ev[x.Var]
			v[i] = !ok || u == x.Val
		case "mult":
			u, ok := ev[x.Var]
			v[i] = !ok || (u >= 0 && u < len(x.Tab) && x.Tab[u] > 0)
		case "prod":
			v[i] = true
			for _, c := range x.Ch {
				v[i] = v[i] && v[c-1]
			}
		case "sum":
			for j, c := range x.Ch {
				v[i] = v[i] || (v[c-1] && x.W[j] > 0)
			}
		}
	}
	return v[len(n)-1]
}

func (n Net) zeroWeight() bool {
	for _, x := range n {
		for _, w := range x.W {
			if x.T == "sum" && w == 0 {
				return true
			}
		}
	}
	return false
}

func (n Net) learnable() bool {
	d := n.Den()
	return n.fitsIn(1<<25) && n.maxGrad() < 100 && d[len(d)-1] <= 16
}

func micron(x float64) int {
	x = math.Round(x * 1e6)
	if math.IsNaN(x) || math.Abs(x) > 2e9 {
		return -2000000000
	}
	return int(x)
}

func micros(v []float64) []int {
	out := make([]int, len(v))
	for i, x := range v {
		out[i] = micron(x)
	}
	return out
}

// weights reads the weights of every sum in units of 1e-6.
func (w *World) weights() [][]int {
	out := make([][]int, len(w.nodes))
	for i, s := range w.nodes {
		out[i] = []int{}
		if z, ok := s.(*spn.Sum); ok {
			out[i] = micros(z.Weights())
		}
	}
	return out
}

// restore puts the original weights back.
func (w *World) restore() {
	for i, s := range w.nodes {
		if z, ok := s.(*spn.Sum); ok {
			W := z.Weights()
			for j := range W {
				W[j] = float64(w.net[i].W[j]) / math.Ldexp(1, w.net[i].Wd)
			}
		}
	}
}

// shape is the image of the network without its weights.
func (w *World) shape() []map[string]interface{} {
	img, _ := Snapshot(w.root())
	for _, x := range img {
		x["w"] = []string{}
	}
	return img
}

func dataPairs(D spn.Dataset) [][][2]int {
	out := make([][][2]int, len(D))
	for i, I := range D {
		out[i] = Pairs(I)
	}
	return out
}

func copyData(D spn.Dataset) spn.Dataset {
	out := make(spn.Dataset, len(D))
	for i, I := range D {
		out[i] = copyVS(I)
	}
	return out
}

var algos = []string{"GD", "BGD", "HardGD", "HardBGD"}

type recipe struct {
	algo string
	eta  [2]int
	la   [2]int
	b    int
	it   int
	norm bool
	auto bool
	y    []int
	c    int
	eps  float64
}

func ratio(r [2]int) float64 { return float64(r[0]) / float64(r[1]) }

// run learns with the real code.
func (r recipe) run(S spn.SPN, D spn.Dataset) spn.SPN {
	lt := parameters.SoftGD
	if r.algo == "HardGD" || r.algo == "HardBGD" {
		lt = parameters.HardGD
	}
	bs := 0
	if r.algo == "BGD" || r.algo == "HardBGD" {
		bs = r.b
	}
	parameters.Bind(S, parameters.New(r.norm, r.auto, 0.5, lt, ratio(r.eta), r.eps, bs, ratio(r.la), r.it))
	defer parameters.Unbind(S)
	eta, eps := ratio(r.eta), r.eps
	var Y []*learn.Variable
	for _, v := range r.y {
		Y = append(Y, &learn.Variable{Varid: v, Categories: 2, Name: "y"})
	}
	if len(r.y) > 0 {
		if r.auto {
			return learn.Discriminative(S, D, Y)
		}
		switch r.algo {
		case "GD":
			return learn.DiscriminativeGD(S, eta, eps, D, Y, r.norm)
		case "BGD":
			return learn.DiscriminativeBGD(S, eta, eps, D, Y, r.norm, r.b)
		case "HardGD":
			return learn.DiscriminativeHardGD(S, eta, eps, D, Y, r.norm)
		}
		return learn.DiscriminativeHardBGD(S, eta, eps, D, Y, r.norm, r.b)
	}
	if r.auto {
		return learn.Generative(S, D)
	}
	var c common.Collection
	if r.c == 1 {
		c = &common.Queue{}
	} else if r.c == 2 {
		c = &common.Stack{}
	}
	switch r.algo {
	case "GD":
		return learn.GenerativeGD(S, eta, eps, D, c, r.norm)
	case "BGD":
		return learn.GenerativeBGD(S, eta, eps, D, c, r.norm, r.b)
	case "HardGD":
		return learn.GenerativeHardGD(S, eta, eps, D, c, r.norm)
	}
	return learn.GenerativeHardBGD(S, eta, eps, D, c, r.norm, r.b)
}

func (w *World) learnData(n int, need []int) spn.Dataset {
	vars, card := w.net.Vars()
	D := make(spn.Dataset, 0, n)
	p := []float64{1, 1, 0.6}[w.t.R.Intn(3)]
	partial := w.t.R.Intn(4) == 0 // instances may lack query variables as well
	for try := 0; len(D) < n && try < 60; try++ {
		I := spn.VarSet{}
		for _, v := range vars {
			if w.t.R.Float64() < p || !partial && in(v, need) {
				I[v] = w.t.R.Intn(card[v])
			}
		}
		if w.t.R.Intn(8) == 0 { // a variable the network knows nothing of
			I[vars[len(vars)-1]+1+w.t.R.Intn(3)] = w.t.R.Intn(4)
		}
		if w.net.positive(I) || (len(need) == 0 && try%7 == 0) {
			D = append(D, I)
		}
	}
	return D
}

func in(v int, s []int) bool {
	for _, u := range s {
		if u == v {
			return true
		}
	}
	return false
}

func (w *World) learnCase(disc bool, enumerated bool) {
	t := w.t
	r := recipe{algo: algos[t.R.Intn(4)], norm: t.R.Intn(2) == 0, auto: t.R.Intn(4) == 0, c: t.R.Intn(3), it: 1, b: 1}
	r.eta = [][2]int{{1, 10}, {1, 4}, {1, 2}, {1, 1}, {3, 100}}[t.R.Intn(5)]
	r.eps = []float64{0.01, 1, 1000}[t.R.Intn(3)]
	r.la = [][2]int{{0, 1}, {1, 100}, {1, 8}, {3, 10}}[t.R.Intn(4)]
	n := 1
	if r.algo == "BGD" || r.algo == "HardBGD" {
		r.b = 2 + t.R.Intn(3)
		if t.R.Intn(8) == 0 && r.algo == "BGD" { // ties of hard learning multiply
			r.b = 5 + t.R.Intn(16)
			r.eta = [2]int{1, 4}
		}
		if !r.auto && t.R.Intn(6) == 0 {
			r.b = 1
		}
		n = 1 + t.R.Intn(r.b)
		if t.R.Intn(2) == 0 {
			n = r.b
		}
	}
	if disc {
		vars, _ := w.net.Vars()
		k := 1 + t.R.Intn(len(vars))
		perm := t.R.Perm(len(vars))
		for _, i := range perm[:k] {
			r.y = append(r.y, vars[i])
		}
		if t.R.Intn(12) == 0 { // asked for twice, or not known
			r.y = append(r.y, []int{r.y[0], vars[len(vars)-1] + 1 + t.R.Intn(3)}[t.R.Intn(2)])
		}
	}
	if (disc || r.algo == "HardGD" || r.algo == "HardBGD") && w.net.zeroWeight() {
		return
	}
	if t.R.Intn(12) == 0 {
		w.defaults(r.y)
		return
	}
	if w.big || t.R.Intn(5) == 0 && !enumerated {
		w.compose(r)
		return
	}
	D := w.learnData(n, r.y)
	if len(D) == 0 || (r.algo == "GD" || r.algo == "HardGD") && len(D) > 1 {
		return
	}
	e := Ev{"op": "learn", "algo": r.algo, "hard": r.algo == "HardGD" || r.algo == "HardBGD", "bs": 0, "y": r.y,
		"data": dataPairs(D), "eta": r.eta, "la": r.la, "b": r.b, "norm": r.norm}
	if r.y == nil {
		e["y"] = []int{}
	}
	if r.auto {
		e["algo"] = "auto"
		if r.b > 1 {
			e["bs"] = r.b
		}
	}
	err := Call(func() {
		S := r.run(w.root(), D)
		e["same"] = S == w.root()
		e["after"] = w.weights()
		e["shape"] = w.shape()
		e["dataafter"] = dataPairs(D)
		w.restore()
	})
	w.emit(e, err)
	t.Case("one application of "+map[bool]string{false: "generative ", true: "discriminative "}[disc]+r.algo, "")
}

// defaults learns with nothing bound to the network, and with the default parameters bound to it.
func (w *World) defaults(y []int) {
	t := w.t
	D := w.learnData(1+t.R.Intn(5), y)
	if len(D) == 0 || w.net.zeroWeight() {
		return
	}
	var Y []*learn.Variable
	for _, v := range y {
		Y = append(Y, &learn.Variable{Varid: v, Categories: 2, Name: "y"})
	}
	run := func() spn.SPN {
		if len(Y) > 0 {
			return learn.Discriminative(w.root(), D, Y)
		}
		return learn.Generative(w.root(), D)
	}
	e := Ev{"op": "compose", "data": dataPairs(D)}
	err := Call(func() {
		e["same"] = run() == w.root()
		e["whole"] = w.weights()
		w.restore()
		parameters.Bind(w.root(), parameters.Default())
		run()
		parameters.Unbind(w.root())
		e["steps"] = w.weights()
		e["shape"] = w.shape()
		e["dataafter"] = dataPairs(D)
		w.restore()
	})
	w.emit(e, err)
	t.Case("learning with no parameters bound", "")
}

// compose compares learning from many instances and iterations with one application after the other.
func (w *World) compose(r recipe) {
	t := w.t
	r.it = 1 + t.R.Intn(3)
	if len(r.y) > 0 { // small steps keep the weights positive
		r.eta = [2]int{1, 1000}
		if r.la[0] != 0 {
			r.la = [2]int{1, 100}
		}
	}
	n := 1 + t.R.Intn(7)
	if t.R.Intn(4) == 0 { // a longer run
		n, r.it, r.b, r.eta = 8+t.R.Intn(60), 1+t.R.Intn(6), 2+t.R.Intn(30), [2]int{1, 1000}
		if r.la[0] != 0 {
			r.la = [2]int{1, 100}
		}
	}
	if w.big {
		r.eta = [2]int{1, 1000}
	}
	if t.R.Intn(6) == 0 { // many times over a few instances
		n, r.it, r.eta, r.la = 1+t.R.Intn(3), 10+t.R.Intn(40), [2]int{1, 1000}, [2]int{0, 1}
	}
	b := 1
	if r.algo == "BGD" || r.algo == "HardBGD" {
		b = r.b
	}
	if (r.algo == "HardGD" || r.algo == "HardBGD") && (w.big || n > 7) {
		// hard steps divide by the weight: in long runs normalised weights leave the range of floating point numbers
		r.it = 1 + t.R.Intn(2)
		if m := 5 * b; n > m {
			n = m
		}
	}
	D := w.learnData(n, r.y)
	if len(D) == 0 {
		return
	}
	e := Ev{"op": "compose", "data": dataPairs(D)}
	seed := t.R.Int63()
	err := Call(func() {
		sys.RefreshRandom(seed)
		S := r.run(w.root(), D)
		e["same"] = S == w.root()
		e["whole"] = w.weights()
		w.restore()
		sys.RefreshRandom(seed)
		one := r
		one.it = 1
		apply := func(B spn.Dataset) {
			if len(B) > 0 {
				one.run(w.root(), copyData(B))
			}
		}
		var B spn.Dataset
		for i := 0; i < r.it; i++ {
			for _, I := range D {
				B = append(B, I)
				if len(B) == b {
					apply(B)
					B = nil
				}
			}
			if len(r.y) == 0 { // batches of generative learning end with the dataset
				apply(B)
				B = nil
			}
		}
		apply(B)
		e["steps"] = w.weights()
		e["shape"] = w.shape()
		e["dataafter"] = dataPairs(D)
		w.restore()
	})
	w.emit(e, err)
	t.Case("many applications of "+r.algo, "")
}

func genLearnNet(t *T) Net {
	for {
		o := netOpts{nvars: 1 + t.R.Intn(3), maxNodes: 3 + t.R.Intn(8), share: 0.4, norm: t.R.Intn(2) == 0}
		switch t.R.Intn(4) {
		case 0:
			o.leaf = "ind"
		case 1:
			o.zero = t.R.Intn(2) == 0
		default:
			o.leaf = "mult"
		}
		if n := GenValid(t.R, o); n.learnable() {
			return n
		}
	}
}

func driveLearn(t *T, disc bool) {
	nets := t.SpecNets()
	t.R.Shuffle(len(nets), func(i, j int) { nets[i], nets[j] = nets[j], nets[i] })
	if m := t.Pick(150, 2500); len(nets) > m {
		nets = nets[:m]
	}
	t.kinds["network enumerated by TLC"] = len(nets)
	for _, n := range nets {
		if !n.learnable() {
			continue
		}
		w := newWorld(t, n)
		for i := 0; i < 2 && !w.dead; i++ {
			w.learnCase(disc, true)
		}
		if w.dead {
			return
		}
	}
	for i := 0; i < t.Pick(150, 2500); i++ {
		n := genLearnNet(t)
		if t.R.Intn(4) == 0 {
			n = n.spread(t.R)
		}
		big := t.R.Intn(8) == 0
		if big {
			n = GenMix(t.R)
		}
		w := newWorld(t, n)
		w.big = big
		if i < 3 {
			t.Sample(w.net)
		}
		for j := 0; j < 4 && !w.dead; j++ {
			w.learnCase(disc, false)
		}
		if w.dead {
			return
		}
	}
	for i := 0; i < t.Pick(120, 2000); i++ {
		if !localStep(t, i, disc) {
			return
		}
	}
}

// wideReal builds a network of wide sums over real-valued leaves: a sum of products with, for every
// variable, a leaf or a sum of leaves that products may share.
func wideReal(t *T, nv, wide int) spn.SPN {
	r := t.R
	leaf := func(v int) spn.SPN {
		if r.Intn(2) == 0 {
			return spn.NewGaussianParams(v, float64(r.Intn(5))/2, 0.5+r.Float64())
		}
		p := 0.05 + 0.4*r.Float64()
		return spn.NewMultinomial(v, []float64{p, 0.8 - p, 0.2})
	}
	shared := make([]spn.SPN, nv)
	for v := range shared {
		s := spn.NewSum()
		for j := r.Intn(wide); j >= 0; j-- {
			s.AddChildW(leaf(v), r.Float64())
		}
		shared[v] = s
	}
	root := spn.NewSum()
	for j := r.Intn(wide); j >= 0; j-- {
		p := spn.NewProduct()
		for v := range shared {
			if r.Intn(3) > 0 {
				p.AddChild(shared[v])
			} else {
				p.AddChild(leaf(v))
			}
		}
		root.AddChildW(p, r.Float64())
	}
	return root
}

// localStep applies one step to a network with weights and values of any magnitude. What the step
// should add to every weight is given term by term, in units of the largest weight that comes out.
func localStep(t *T, i int, disc bool) bool {
	var S spn.SPN
	nv := 1 + t.R.Intn(6)
	switch i % 4 {
	case 0, 1:
		nv = []int{1 + t.R.Intn(5), 20 + t.R.Intn(20)}[i%2]
		S = wideReal(t, nv, 2+t.R.Intn(24))
	default:
		S, _, nv = realNet(t, i/4, false)
	}
	_, order := Snapshot(S)
	var sums []*spn.Sum
	tiny := t.R.Intn(2) == 0
	for _, s := range order {
		if z, ok := s.(*spn.Sum); ok {
			sums = append(sums, z)
			W := z.Weights()
			for j := range W { // no two alike, none zero
				W[j] = 0.1 + t.R.Float64()
				if tiny {
					W[j] *= math.Pow(10, -6*t.R.Float64())
				}
			}
		}
	}
	r := recipe{algo: algos[t.R.Intn(4)], norm: t.R.Intn(2) == 0, auto: t.R.Intn(4) == 0, c: t.R.Intn(3), it: 1, b: 1}
	r.eta = [][2]int{{1, 10}, {1, 1000}, {1, 1}, {1, 1000000}}[t.R.Intn(4)]
	r.la = [][2]int{{0, 1}, {1, 100}, {1, 8}}[t.R.Intn(3)]
	n := 1
	batch := r.algo == "BGD" || r.algo == "HardBGD"
	hard := r.algo == "HardGD" || r.algo == "HardBGD"
	if batch {
		r.b = 2 + t.R.Intn(40)
		n = 1 + t.R.Intn(r.b)
	}
	if disc {
		for _, v := range t.R.Perm(nv)[:1+t.R.Intn(nv)] {
			r.y = append(r.y, v)
		}
	}
	var D spn.Dataset
	for try := 0; len(D) < n && try < 4*n; try++ {
		I := realEvidence(t, nv, try%3)
		for _, v := range r.y {
			if _, ok := I[v]; !ok {
				I[v] = t.R.Intn(3)
			}
		}
		if !math.IsInf(spn.Inference(S, I), -1) {
			D = append(D, I)
		}
	}
	if len(D) == 0 {
		return true
	}
	e := Ev{"op": "localstep", "norm": r.norm, "data": dataPairs(D)}
	err := Call(func() {
		type key struct {
			s *spn.Sum
			j int
		}
		grad, seen, touched := map[key]float64{}, map[key]bool{}, map[*spn.Sum]bool{}
		gather := func(I spn.VarSet, sign float64) {
			st := spn.NewStorer()
			if hard {
				tab, _ := st.Table(learn.DeriveHard(S, st, -1, I))
				for _, s := range sums {
					m, ok := tab.Value(s)
					touched[s] = touched[s] || ok
					for j, c := range m {
						grad[key{s, j}] += sign * c // edges are counted
						seen[key{s, j}] = true
					}
				}
				return
			}
			_, itk := spn.StoreInference(S, I, -1, st)
			_, dtk := learn.DeriveSPN(S, st, -1, itk, nil)
			_, wtk := learn.DeriveWeights(S, st, -1, dtk, itk, nil)
			tab, _ := st.Table(wtk)
			off := 0.0
			if disc {
				off, _ = st.Single(itk, S)
			}
			for _, s := range sums {
				touched[s] = true
				for j := range s.Ch() {
					d, _ := tab.Entry(s, j)
					grad[key{s, j}] += sign * math.Exp(d-off)
					seen[key{s, j}] = true
				}
			}
		}
		for _, I := range D {
			gather(I, 1)
			if disc {
				J := copyVS(I)
				for _, v := range r.y {
					delete(J, v)
				}
				gather(J, -1)
			}
		}
		eta, la := ratio(r.eta), ratio(r.la)
		if !disc && r.algo == "GD" { // soft steps one by one know no decay
			la = 0
		}
		type part struct{ old, grad, decay []float64 }
		want := make([]part, len(sums))
		for k, s := range sums {
			for j, w := range s.Weights() {
				g, d := 0.0, 0.0
				if seen[key{s, j}] && !(hard && grad[key{s, j}] == 0) {
					g, d = eta*grad[key{s, j}]/float64(r.b), 2*la*w
					if hard {
						g /= w
					}
				}
				want[k].old, want[k].grad, want[k].decay = append(want[k].old, w), append(want[k].grad, g), append(want[k].decay, d)
			}
		}
		Z := r.run(S, D)
		out := []Ev{}
		for k, s := range sums {
			scale := 0.0
			for j := range want[k].old {
				scale = math.Max(scale, math.Max(want[k].old[j], math.Abs(want[k].grad[j])))
			}
			units := func(v []float64) []int {
				o := make([]int, len(v))
				for j := range v {
					o[j] = micron(v[j] / scale)
				}
				return o
			}
			x := Ev{"old": units(want[k].old), "grad": units(want[k].grad), "decay": units(want[k].decay), "touched": touched[s]}
			if r.norm && touched[s] {
				x["got"] = micros(s.Weights())
			} else {
				x["got"] = units(s.Weights())
			}
			out = append(out, x)
		}
		_, after := Snapshot(S)
		same := Z == S && len(after) == len(order)
		for j := range after {
			same = same && after[j] == order[j]
		}
		e["sums"], e["same"], e["dataafter"] = out, same, dataPairs(D)
	})
	if err != "" {
		e["err"] = err
	}
	t.Emit(e)
	t.Case("one application of "+r.algo+" to weights of any magnitude", "")
	return err == ""
}

// ---------------------------------------------------------------- normalisation

// offLeaf tells whether the tables of some leaf do not add up to one.
func (n Net) offLeaf() bool {
	for _, x := range n {
		if x.T == "mult" {
			s := 0
			for _, v := range x.Tab {
				s += v
			}
			if s != 1<<x.Td {
				return true
			}
		}
	}
	return false
}

func (w *World) normNet(mass bool) {
	e := Ev{"op": "normnet"}
	err := Call(func() {
		S := spn.NormalizeSPN(w.root())
		e["same"] = S == w.root()
		e["after"] = w.weights()
		e["shape"] = w.shape()
	})
	w.emit(e, err)
	if w.dead {
		return
	}
	w.t.Case("network normalised", "")
	if mass {
		vars, card := w.net.Vars()
		total := 1
		for _, v := range vars {
			total *= card[v]
		}
		if total <= 300 {
			m := Ev{"op": "mass"}
			err = Call(func() {
				sum, none := 0.0, 0.0
				for i := 0; i < total; i++ {
					I, k := spn.VarSet{}, i
					for _, v := range vars {
						I[v] = k % card[v]
						k /= card[v]
					}
					sum += math.Exp(spn.Inference(w.root(), I))
				}
				none = math.Exp(spn.Inference(w.root(), spn.VarSet{}))
				m["mass"], m["none"] = micron(sum), micron(none)
			})
			w.emit(m, err)
			w.t.Case("mass of a normalised network", "")
		}
	}
	w.restore()
}

func driveC10(t *T) {
	t.specLines(func(b []byte) {
		if len(b) < 2 || b[1] == '{' {
			return
		}
		var v []int
		if json.Unmarshal(b, &v) != nil {
			return
		}
		t.Case("vector enumerated by TLC", "")
		f := make([]float64, len(v))
		for i, x := range v {
			f[i] = float64(x)
		}
		e := Ev{"op": "normvec", "v": v}
		t.do(e, func() { learn.Normalize(f); e["res"] = micros(f) })
	})
	for i := 0; i < t.Pick(120, 2000); i++ {
		// every leaf normalised, any weights at all
		o := netOpts{nvars: 1 + t.R.Intn(4), maxNodes: 3 + t.R.Intn(14), share: 0.4, zero: t.R.Intn(3) == 0, leaf: "mult"}
		if t.R.Intn(3) == 0 {
			o.leaf = ""
		}
		n := GenValid(t.R, o)
		if t.R.Intn(5) == 0 {
			n = GenMix(t.R)
		} else if t.R.Intn(4) == 0 {
			n = n.spread(t.R)
		}
		if i%40 == 9 { // many nodes
			n = GenForest(t.R, 60+t.R.Intn(60), false)
			for k := range n {
				for j := range n[k].W {
					n[k].W[j] = 1 + t.R.Intn(9)
				}
			}
		}
		ind := false
		for k := range n {
			if n[k].T == "sum" && t.R.Intn(4) == 0 { // weights summing to nothing, or some negative
				neg := t.R.Intn(2) == 0
				for j := range n[k].W {
					n[k].W[j] = 0
					if neg {
						n[k].W[j] = t.R.Intn(6) - 2
					}
				}
			}
			ind = ind || n[k].T == "ind"
		}
		ind = ind || n.offLeaf()
		w := newWorld(t, n)
		if i < 3 {
			t.Sample(n)
		}
		w.normNet(!ind)
		if w.dead {
			return
		}
		{
			k := 1 + t.R.Intn(8)
			if t.R.Intn(3) == 0 {
				k = 1 + t.R.Intn(80)
			}
			top := 1 + t.R.Intn(2000)
			low := 0
			if t.R.Intn(2) == 0 {
				low = t.R.Intn(top + 1)
			}
			v, f := make([]int, k), make([]float64, k)
			for a := range v {
				v[a] = t.R.Intn(top) - low
			}
			if t.R.Intn(4) == 0 { // all but one at or above 0, far along
				v = make([]int, 1+t.R.Intn(300))
				for a := range v {
					v[a] = t.R.Intn(9)
				}
				v[[]int{0, len(v) - 1, t.R.Intn(len(v))}[t.R.Intn(3)]] = -1 - t.R.Intn(9)
				f = make([]float64, len(v))
			}
			for a := range v {
				f[a] = float64(v[a])
			}
			e := Ev{"op": "normvec", "v": v}
			t.do(e, func() { learn.Normalize(f); e["res"] = micros(f) })
			t.Case("random vector of integers", "")
		}
		{ // a sum among others in a network, its weights anything from tiny to huge
			top := spn.NewProduct()
			var vs [][]int
			var ss []*spn.Sum
			for a := 0; a < 1+t.R.Intn(3); a++ {
				s := spn.NewSum()
				k := 1 + t.R.Intn(8)
				if t.R.Intn(3) == 0 {
					k = 1 + t.R.Intn(60)
				}
				one := t.R.Intn(5) == 0 // one below 0, the last of many
				if one {
					k = 1 + t.R.Intn(200)
				}
				low := 0
				if t.R.Intn(2) == 0 {
					low = t.R.Intn(40)
				}
				scale := math.Ldexp(1, t.R.Intn(1960)-980)
				v := make([]int, k)
				for b := range v {
					v[b] = t.R.Intn(100) - low
					if one {
						v[b] = t.R.Intn(9)
						if b == k-1 {
							v[b] = -1 - t.R.Intn(9)
						}
					}
					s.AddChildW(spn.NewIndicator(a, b%3), float64(v[b])*scale)
				}
				top.AddChild(s)
				vs, ss = append(vs, v), append(ss, s)
			}
			ok := true
			for a := range ss {
				e := Ev{"op": "normvec", "v": vs[a]}
				ok = ok && t.do(e, func() {
					if a == 0 {
						spn.NormalizeSPN(top)
					}
					e["res"] = micros(ss[a].Weights())
				})
			}
			t.Case("network with weights of any magnitude", "")
			if !ok {
				return
			}
		}
		for j := 0; j < 2; j++ {
			k := 1 + t.R.Intn(6)
			if t.R.Intn(6) == 0 {
				k = 1 + t.R.Intn(300)
			}
			v, u := make([]float64, k), make([]float64, k)
			scale := math.Ldexp(1, t.R.Intn(400)-200)
			if j == 1 {
				scale = math.Ldexp(1, t.R.Intn(1960)-980)
			}
			for a := range v {
				v[a] = t.R.Float64() * scale
				if t.R.Intn(3) == 0 {
					v[a] *= math.Ldexp(1, -t.R.Intn(30))
				}
				u[a] = v[a]
			}
			tot := 0.0
			for _, x := range v {
				tot += x
			}
			if t.R.Intn(3) == 0 { // all but normalised
				off := 1 + math.Ldexp(float64(1-2*t.R.Intn(2)), -1-t.R.Intn(36))
				for a := range v {
					v[a] *= off / tot
					u[a] = v[a]
				}
				tot = off
			}
			sh := make([]int, k)
			for a := range v {
				sh[a] = micron(v[a] / tot)
			}
			e := Ev{"op": "normreal", "share": sh}
			net := t.R.Intn(2) == 0
			t.do(e, func() {
				if net { // as the weights of a network
					s := spn.NewSum()
					for a := range u {
						s.AddChildW(spn.NewIndicator(0, a), u[a])
					}
					spn.NormalizeSPN(s)
					u = s.Weights()
				} else {
					learn.Normalize(u)
				}
				e["res"] = micros(u)
				sum := 0.0
				for _, x := range u {
					sum += x
				}
				e["over"] = int(math.Max(-1e9, math.Min(1e9, (sum-1)*1e12))) // what is missing of one
			})
			t.Case("vector of any magnitude", "")
		}
	}
}
