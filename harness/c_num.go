package main

import (
	"encoding/json"
	"fmt"
	"math"

	"github.com/RenatoGeh/gospn/common"
	"github.com/RenatoGeh/gospn/spn"
	"github.com/RenatoGeh/gospn/utils"
)

func init() {
	drivers["C22"] = driveC22
	drivers["C25"] = driveC25
}

const notExact = -999999

// exact projects a float that has to be an integer (up to rounding errors) to that integer.
func exact(x float64) int {
	r := math.Round(x)
	if math.IsNaN(x) || math.IsInf(x, 0) || math.Abs(r) > 2e9 || math.Abs(x-r) > 1e-7*math.Max(1, math.Abs(x)) {
		return notExact
	}
	return int(r)
}

func exacts(xs []float64, f float64) []int {
	out := make([]int, len(xs))
	for i, x := range xs {
		out[i] = exact(x * f)
	}
	return out
}

// ---------------------------------------------------------------- leaves

type leafWorld struct {
	t   *T
	S   spn.SPN
	vid int
	off int // values are seen relative to this one
}

// state is what a leaf makes of its variable.
func (w *leafWorld) state(s spn.VarSet) [][2]int {
	p := Pairs(s)
	for i := range p {
		p[i][1] -= w.off
	}
	return p
}

// seeDiscrete looks at every value of a discrete leaf.
func (w *leafWorld) seeDiscrete(S spn.SPN, n int, d float64) bool {
	e := Ev{"op": "see"}
	return w.t.do(e, func() {
		var val, max, arg []int
		st := [][][2]int{}
		for x := 0; x < n; x++ {
			ev := spn.VarSet{w.vid: x, w.vid + 7: 1}
			val = append(val, exact(math.Exp(S.Value(ev))*d))
			max = append(max, exact(math.Exp(S.Max(ev))*d))
			s, v := S.ArgMax(ev)
			arg = append(arg, exact(math.Exp(v)*d))
			st = append(st, Pairs(s))
			if len(ev) != 2 || ev[w.vid] != x || ev[w.vid+7] != 1 {
				panic("evidence changed")
			}
		}
		fs, fv := S.ArgMax(spn.VarSet{w.vid + 7: 1})
		o := Ev{"sc": ints(S.Sc()), "value": val, "max": max, "argmax": arg, "state": st,
			"marginal": exact(math.Exp(S.Value(spn.VarSet{})) * d), "other": exact(math.Exp(S.Value(spn.VarSet{w.vid + 7: 1})) * d),
			"fmax": exact(math.Exp(S.Max(spn.VarSet{})) * d), "fargmax": exact(math.Exp(fv) * d), "fstate": Pairs(fs)}
		o["pr"] = exacts(S.(*spn.Multinomial).Pr(), d)
		e["o"] = o
	})
}

func (w *leafWorld) moments(d float64) bool {
	e := Ev{"op": "moments"}
	return w.t.do(e, func() {
		m := w.S.(*spn.Multinomial)
		e["mean"] = exact(m.Mean() * d)
		e["sd"] = exact(m.StdDev() * m.StdDev() * d * d)
		mu, sd := m.MuSigma()
		e["mu"], e["sigma"] = exact(mu*d), exact(sd*sd*d*d)
	})
}

// momentsFit tells whether the moments in units of 1/d fit TLC's integers.
func momentsFit(m *spn.Multinomial, d float64) bool {
	s := 0.0
	for i, p := range m.Pr() {
		s += p * float64(i*i)
	}
	return s*d*d < 1<<30
}

// seeNormal looks at a Gaussian leaf with n observations. All numbers are turned into integers with
// the leaf's own parameters c/n and v/n^2, which are themselves part of what is seen.
func (w *leafWorld) seeNormal(S spn.SPN, n float64, hi int) bool {
	e := Ev{"op": "see"}
	return w.t.do(e, func() {
		g := S.(*spn.Gaussian)
		mu, sigma := g.Params()
		o := Ev{"sc": ints(S.Sc())}
		xs := []int{}
		for x := -2; x <= hi+2; x++ {
			xs = append(xs, x)
		}
		o["xs"] = xs
		o["marginal"] = exact(math.Exp(S.Value(spn.VarSet{})) * 1e6)
		o["other"] = exact(math.Exp(S.Value(spn.VarSet{w.vid + 1: 3})) * 1e6)
		fs, fv := S.ArgMax(spn.VarSet{w.vid + 1: 2})
		o["fstate"] = w.state(fs)
		fm := S.Max(spn.VarSet{})
		v := sigma * sigma * n * n
		proj := func(l float64) int {
			if sigma == 0 {
				return exact(math.Exp(l))
			}
			x := (fm - l) * 2 * v
			if math.Abs(x-math.Round(x)) < 1e-4 { // 2 v magnifies the rounding errors of fm and l
				return exact(math.Round(x))
			}
			return exact(x)
		}
		var val, max, arg []int
		st := [][][2]int{}
		for _, x := range xs {
			ev := spn.VarSet{w.vid: x + w.off}
			val = append(val, proj(S.Value(ev)))
			max = append(max, proj(S.Max(ev)))
			s, a := S.ArgMax(ev)
			arg = append(arg, proj(a))
			st = append(st, w.state(s))
		}
		o["value"], o["max"], o["argmax"], o["state"] = val, max, arg, st
		if sigma == 0 {
			o["peak"], o["apeak"] = exact(math.Exp(fm)*1e6), exact(math.Exp(fv)*1e6)
		} else {
			o["c"], o["v"] = exact((mu-float64(w.off))*n), exact(v)
			z := sigma * math.Sqrt(2*math.Pi) * 1e6
			o["peak"], o["apeak"] = int(math.Round(math.Exp(fm)*z)), int(math.Round(math.Exp(fv)*z))
		}
		e["o"] = o
	})
}

// again encodes and decodes a leaf.
func (w *leafWorld) again() (S spn.SPN, err string) {
	err = Call(func() {
		switch x := w.S.(type) {
		case *spn.Multinomial:
			b, er := x.GobEncode()
			m := new(spn.Multinomial)
			if er == nil {
				er = m.GobDecode(b)
			}
			if er != nil {
				panic(er)
			}
			S = m
		case *spn.Gaussian:
			b, er := x.GobEncode()
			m := new(spn.Gaussian)
			if er == nil {
				er = m.GobDecode(b)
			}
			if er != nil {
				panic(er)
			}
			S = m
		}
	})
	return
}

func sumInts(c []int) int {
	n := 0
	for _, x := range c {
		n += x
	}
	return n
}

func (t *T) leafCase(kind string, vid int, c []int) bool {
	t.Case(kind, fmt.Sprint(c))
	w := &leafWorld{t: t, vid: vid}
	n := len(c)
	N := sumInts(c)
	keep := append([]int{}, c...)
	e := Ev{"op": kind, "var": vid, "c": append([]int{}, c...)}
	switch {
	case kind == "raw" && t.R.Intn(4) == 0: // values move their mean along with them
		w.off = t.R.Intn(1<<uint(1+t.R.Intn(25))) - 1<<10
	case (kind == "atmean" || kind == "atmode" || kind == "fit") && t.R.Intn(4) == 0:
		// everything counted this many times has the same moments
		times := 1 + t.R.Intn(1<<uint(1+t.R.Intn(40)))
		for i := range c {
			c[i] *= times
			keep[i] = c[i]
		}
	}
	d := float64(N + n)
	switch kind {
	case "dist":
		d = float64(N)
		e["pr"], e["d"] = e["c"], N
		if !t.do(e, func() {
			f := make([]float64, n)
			for i := range c {
				f[i] = float64(c[i]) / d
			}
			w.S = spn.NewMultinomial(vid, f)
		}) {
			return false
		}
	case "count":
		if !t.do(e, func() { w.S = spn.NewCountingMultinomial(vid, c) }) {
			return false
		}
	case "scoped":
		sc := []int{vid, vid + 2}
		e["sc"] = sc
		if !t.do(e, func() { w.S = spn.NewScopedCountingMultinomial(vid, sc, c) }) {
			return false
		}
	case "empty":
		e["m"] = n
		d = float64(n)
		if !t.do(e, func() { w.S = spn.NewEmptyMultinomial(vid, n) }) {
			return false
		}
	case "atmean", "fit":
		e["op"] = "atmean"
		if !t.do(e, func() {
			if kind == "fit" {
				f := make([]float64, n)
				for i := range c {
					f[i] = float64(c[i])
				}
				w.S = spn.NewGaussianFit(vid, f)
				return
			}
			w.S = spn.NewGaussian(vid, c)
		}) {
			return false
		}
	case "atmode":
		if !t.do(e, func() {
			g := spn.NewGaussianMode(vid, c)
			w.S = g
			mu, _ := g.Params()
			e["at"] = exact(mu)
		}) {
			return false
		}
	case "raw":
		x := []int{}
		f := []float64{}
		for i, k := range c {
			for j := 0; j < k; j++ {
				x = append(x, i)
			}
		}
		t.R.Shuffle(len(x), func(i, j int) { x[i], x[j] = x[j], x[i] })
		for _, v := range x {
			f = append(f, float64(v+w.off))
		}
		e["x"] = x
		if !t.do(e, func() { w.S = spn.NewGaussianRaw(vid, f) }) {
			return false
		}
	}
	if len(c) > 0 && fmt.Sprint(c) != fmt.Sprint(keep) {
		t.Emit(Ev{"op": "changed", "err": "counts changed"})
		return false
	}
	see := func(S spn.SPN) bool {
		if _, ok := S.(*spn.Gaussian); ok {
			return w.seeNormal(S, float64(N), n)
		}
		return w.seeDiscrete(S, n, d)
	}
	if !see(w.S) {
		return false
	}
	if m, ok := w.S.(*spn.Multinomial); ok && momentsFit(m, d) && !w.moments(d) {
		return false
	}
	if kind != "scoped" {
		S, err := w.again()
		if err != "" {
			t.Emit(Ev{"op": "again", "err": err})
			return false
		}
		if !see(S) {
			return false
		}
	}
	return true
}

func (t *T) leafParams(vid, mu4, sd4 int) bool {
	t.Case("params", fmt.Sprint(mu4, sd4))
	w := &leafWorld{t: t, vid: vid}
	if t.R.Intn(4) == 0 {
		w.off = t.R.Intn(1<<uint(1+t.R.Intn(25))) - 1<<10
		if sd4 == 0 && -8 <= w.off {
			w.off = -w.off
		}
	}
	return t.do(Ev{"op": "params", "var": vid, "mu4": mu4, "sd4": sd4}, func() {
		w.S = spn.NewGaussianParams(vid, float64(w.off)+float64(mu4)/4, float64(sd4)/4)
	}) && w.seeNormal(w.S, 4, 6)
}

func driveC22(t *T) {
	all := []string{"dist", "count", "scoped", "empty", "atmean", "atmode", "raw", "fit"}
	run := func(c []int, kinds []string) bool {
		for _, k := range kinds {
			if sumInts(c) == 0 && (k == "dist" || k == "atmean" || k == "atmode" || k == "raw" || k == "fit") {
				continue
			}
			vid := t.R.Intn(9)
			if t.R.Intn(10) == 0 {
				vid = t.R.Intn(100000)
			}
			if !t.leafCase(k, vid, append([]int{}, c...)) {
				return false
			}
		}
		return true
	}
	i := 0
	ok := true
	t.specLines(func(b []byte) {
		var c []int
		if err := json.Unmarshal(b, &c); err != nil {
			panic(err)
		}
		i++
		if !ok {
			return
		}
		t.Case("counts enumerated by TLC", "")
		t.Sample(c)
		ok = run(c, all)
	})
	if !ok {
		return
	}
	for k := 0; k < t.Pick(60, 800); k++ {
		c := make([]int, 1+t.R.Intn(12))
		for i := range c {
			c[i] = t.R.Intn(5)
		}
		if t.R.Intn(4) == 0 {
			for i := range c {
				c[i] = 0
			}
		}
		switch t.R.Intn(12) {
		case 0: // many categories
			c = make([]int, 13+t.R.Intn(30))
			for i := range c {
				c[i] = t.R.Intn(6)
			}
		case 1: // many observations
			c = make([]int, 1+t.R.Intn(4))
			for i := range c {
				c[i] = t.R.Intn(200)
			}
		case 2: // few values among many, far from zero
			c = make([]int, 50+t.R.Intn(300))
			for i := 0; i < 1+t.R.Intn(5); i++ {
				c[len(c)-1-t.R.Intn(len(c)/(1+t.R.Intn(20)))] += 1 + t.R.Intn(4)
			}
		}
		c[t.R.Intn(len(c))] += t.R.Intn(9)
		if k%10 == 0 { // far more observations
			big := append([]int{}, c...)
			for i := range big {
				big[i] = big[i] * t.R.Intn(1<<uint(1+t.R.Intn(18)))
			}
			if s := sumInts(big); s > 0 && s < 1<<29 && !run(big, []string{"dist", "count", "scoped"}) {
				return
			}
		}
		if !run(c, all) {
			return
		}
	}
	for k := 0; k < t.Pick(40, 400); k++ {
		mu4 := t.R.Intn(33) - 4
		sd4 := 1 + t.R.Intn(24)
		if k%8 == 0 {
			mu4, sd4 = 4*(t.R.Intn(8)-2), 0
		} else if k%9 == 0 {
			mu4, sd4 = t.R.Intn(4000)-2000, 1+t.R.Intn(2000)
		}
		if !t.leafParams(t.R.Intn(5), mu4, sd4) {
			return
		}
	}
}

// ---------------------------------------------------------------- log space and statistics

// shifted is log(k 2^e), with log 0 = -inf.
func shifted(k, e int) float64 {
	return math.Log(float64(k)) + float64(e)*math.Ln2
}

func unshift(l float64, e int) int {
	if math.IsInf(l, -1) {
		return 0
	}
	return exact(math.Exp(l - float64(e)*math.Ln2))
}

func (t *T) logCase(ks, ss []int, e int) bool {
	t.Case("log", fmt.Sprint(ks, ss, e))
	n := len(ks)
	a := make([]float64, n)
	for i := range ks {
		a[i] = shifted(ks[i], e)
	}
	b := append([]float64{}, a...)
	same := func(x, y []float64) bool {
		for i := range x {
			if x[i] != y[i] {
				return false
			}
		}
		return len(x) == len(y)
	}
	ev := Ev{"op": "logsumexp", "ks": ks}
	if !t.do(ev, func() {
		ev["r"] = unshift(utils.LogSumExp(a), e)
		ev["kept"] = same(a, b)
	}) {
		return false
	}
	ev = Ev{"op": "sumlog", "ks": ks, "ss": ss}
	if !t.do(ev, func() {
		v, s := utils.LogSumLog(a, ss)
		ev["r"], ev["s"] = unshift(v, e), s
		ev["kept"] = same(a, b)
	}) {
		return false
	}
	if n >= 2 {
		ev = Ev{"op": "logsumpair", "ks": ks[:2]}
		if !t.do(ev, func() {
			ev["r"] = unshift(utils.LogSumExpPair(a[0], a[1]), e)
			ev["r2"] = unshift(utils.LogSumExpPair(a[1], a[0]), e)
			ev["r3"] = unshift(utils.LogSumPair(float64(ks[0]), float64(ks[1])), 0)
		}) {
			return false
		}
	}
	if !t.spreadCase(ks, ss) || !t.approxCase() || !t.fineCase() {
		return false
	}
	// probabilities proper: k 2^-f with f such that they fit a float64
	f := t.R.Intn(1020) // where math.Log is accurate
	p := make([]float64, n)
	q := []float64{}
	for i := range ks {
		p[i] = math.Ldexp(float64(ks[i]), -f)
		if i < 6 {
			q = append(q, p[i])
		}
	}
	ev = Ev{"op": "logsum", "ks": ks}
	if !t.do(ev, func() {
		ev["r"] = unshift(utils.LogSum(p), -f)
	}) {
		return false
	}
	ev = Ev{"op": "logprod", "ks": ks[:len(q)]}
	return t.do(ev, func() {
		l := utils.LogProd(q)
		if !math.IsInf(l, -1) {
			l += float64(f*len(q)) * math.Ln2
		}
		ev["r"] = unshift(l, 0)
		ev["id"] = exact(utils.AntiLog(utils.Log(float64(sumInts(ks)+1)))) == sumInts(ks)+1
	})
}

// spreadCase sums operands of magnitudes so far apart that only the greatest of them count.
func (t *T) spreadCase(ks, ss []int) bool {
	n := len(ks)
	es := make([]int, n)
	groups := 1 + t.R.Intn(4)
	low := -2000 + t.R.Intn(4000)
	step := 60 + t.R.Intn(2000)
	top := math.MinInt32
	a := make([]float64, n)
	for i := range es {
		es[i] = low + step*t.R.Intn(groups)
		a[i] = shifted(ks[i], es[i])
		if ks[i] > 0 && es[i] > top {
			top = es[i]
		}
	}
	stop := math.MinInt32
	for i := range es {
		if ks[i] > 0 && ss[i] != 0 && es[i] > stop {
			stop = es[i]
		}
	}
	e := Ev{"op": "logspread", "ks": ks, "es": es, "ss": ss, "top": top, "stop": stop}
	return t.do(e, func() {
		e["r"] = unshift(utils.LogSumExp(a), top)
		v, s := utils.LogSumLog(a, ss)
		e["sr"], e["ssign"] = unshift(v, stop), s
		e["p"], e["p2"], e["ptop"] = 0, 0, top
		if n >= 2 {
			ptop := math.MinInt32
			for i := 0; i < 2; i++ {
				if ks[i] > 0 && es[i] > ptop {
					ptop = es[i]
				}
			}
			e["ptop"] = ptop
			e["p"] = unshift(utils.LogSumExpPair(a[0], a[1]), ptop)
			// as numbers proper, from the smallest to the greatest a float64 can hold
			up := t.R.Intn(900)
			f := func(i int) float64 {
				if es[i] == ptop {
					return math.Ldexp(float64(ks[i]), up)
				}
				return math.Ldexp(float64(ks[i]), -60-t.R.Intn(1015))
			}
			e["p2"] = unshift(utils.LogSumPair(f(0), f(1)), up)
		}
	})
}

// fineCase sums operands of which the smaller ones count for little, but do count.
func (t *T) fineCase() bool {
	n := 2 + t.R.Intn(4)
	ks, ss := make([]int, n), make([]int, n)
	for i := range ks {
		ks[i], ss[i] = t.R.Intn(5), 1-2*t.R.Intn(2)
	}
	big := 1 << uint(12+t.R.Intn(18))
	k := t.R.Intn(n)
	ks[k] = big + t.R.Intn(9)
	if j := t.R.Intn(n); j != k && big < 1<<20 && t.R.Intn(2) == 0 { // nearly the same, with the other sign
		ks[j], ss[j] = big-t.R.Intn(9), -ss[k]
	}
	sh := t.R.Intn(200) - 100
	a := make([]float64, n)
	for i := range a {
		a[i] = shifted(ks[i], sh)
	}
	whole := func(l float64) int { // to the nearest of the sums there may be
		if math.IsInf(l, -1) {
			return 0
		}
		x := math.Exp(l - float64(sh)*math.Ln2)
		if !(math.Abs(x-math.Round(x)) < 0.2) || x > 2e9 {
			return notExact
		}
		return int(math.Round(x))
	}
	e := Ev{"op": "logfine", "ks": ks, "ss": ss}
	return t.do(e, func() {
		e["r"] = whole(utils.LogSumExp(a))
		v, s := utils.LogSumLog(a, ss)
		e["sr"], e["ssign"] = whole(v), s
		p := make([]float64, n)
		for i := range p {
			p[i] = math.Ldexp(float64(ks[i]), sh)
		}
		e["lr"] = whole(utils.LogSum(p))
		e["p"], e["p2"] = whole(utils.LogSumExpPair(a[0], a[1])), whole(utils.LogSumPair(p[0], p[1]))
	})
}

// approxCase compares numbers that are exact in binary.
func (t *T) approxCase() bool {
	a, b, eps := t.R.Intn(9)-4, t.R.Intn(9)-4, t.R.Intn(6)
	sh := t.R.Intn(100) - 50
	e := Ev{"op": "approx", "a": a, "b": b, "eps": eps}
	return t.do(e, func() {
		f := func(k int) float64 { return math.Ldexp(float64(k), sh) }
		e["r"] = common.ApproxEqual(f(a), f(b), f(eps))
		e["zero"] = common.ApproxEqual(utils.LogZero, utils.LogZero, f(eps)) && !common.ApproxEqual(utils.LogZero, f(a), f(eps))
	})
}

func (t *T) statCase(c []int) bool {
	t.Case("statistics", fmt.Sprint(c))
	if N := float64(sumInts(c)); N > 0 {
		e := Ev{"op": "moments", "c": c}
		times := 1 // everything counted this many times has the same moments
		if t.R.Intn(3) == 0 {
			times = 1 + t.R.Intn(1<<uint(1+t.R.Intn(40)))
		}
		if !t.do(e, func() {
			c := append([]int{}, c...)
			for i := range c {
				c[i] *= times
			}
			s := utils.StdDev(c)
			mu, sd := utils.MuSigma(c)
			e["mean"], e["mu"] = exact(utils.Mean(c)*N), exact(mu*N)
			e["sd"], e["sigma"] = exact(s*s*N*N), exact(sd*sd*N*N)
		}) {
			return false
		}
	}
	x := c[t.R.Intn(len(c))]
	e := Ev{"op": "trim", "c": append([]int{}, c...), "x": x}
	none := -1 // the value that stands for the logarithm of zero
	if t.R.Intn(2) == 0 {
		none = c[t.R.Intn(len(c))]
	}
	sh := t.R.Intn(200) - 100
	f := func(k int) float64 {
		if k == none {
			return utils.LogZero
		}
		return math.Ldexp(float64(k), sh)
	}
	return t.do(e, func() {
		a := make([]float64, len(c))
		for i := range c {
			a[i] = f(c[i])
		}
		r := []int{}
		for _, y := range utils.Trim(a, f(x)) {
			if y == utils.LogZero {
				r = append(r, none)
			} else {
				r = append(r, exact(math.Ldexp(y, -sh)))
			}
		}
		e["r"] = r
	})
}

func (t *T) quantileCase(x []int, m int) bool {
	t.Case("quantiles", fmt.Sprint(x, m))
	off := 0 // values move the means along with them
	if t.R.Intn(3) == 0 {
		off = t.R.Intn(1<<uint(1+t.R.Intn(24))) - 1<<10
	}
	e := Ev{"op": "quantiles", "x": x, "m": m}
	x = append([]int{}, x...)
	for i := range x {
		x[i] += off
	}
	keep := append([]int{}, x...)
	return t.do(e, func() {
		qs := []Ev{}
		for _, q := range utils.PartitionQuantiles(x, m) {
			n := q[2]
			qs = append(qs, Ev{"n": exact(n), "mu": exact((q[0] - float64(off)) * n), "sd": exact(4 * q[1] * q[1] * n * n)})
		}
		e["qs"] = qs
		e["kept"] = fmt.Sprint(keep) == fmt.Sprint(x)
	})
}

func driveC25(t *T) {
	ok := true
	signs := func(n int) []int {
		s := make([]int, n)
		for i := range s {
			s[i] = []int{1, -1, 1, 0}[t.R.Intn(4)]
		}
		return s
	}
	t.specLines(func(b []byte) {
		if !ok {
			return
		}
		var x []int
		if err := json.Unmarshal(b, &x); err != nil {
			panic(err)
		}
		t.Case("values enumerated by TLC", "")
		t.Sample(x)
		ok = t.logCase(x, signs(len(x)), []int{0, -5000, -1100, 40, 5000}[t.R.Intn(5)]) && t.statCase(x)
		for m := 1; ok && m <= len(x)+2; m++ {
			ok = t.quantileCase(x, m)
		}
	})
	for i := 0; ok && i < t.Pick(300, 4000); i++ {
		n := 1 + t.R.Intn(20)
		if t.R.Intn(20) == 0 {
			n = 20 + t.R.Intn(600)
		}
		if i%100 == 50 {
			n = 1025 + t.R.Intn(1200)
		}
		ks := make([]int, n)
		for j := range ks {
			if t.R.Intn(4) > 0 {
				ks[j] = t.R.Intn(1 << uint(1+t.R.Intn(5)))
			}
		}
		ok = t.logCase(ks, signs(n), t.R.Intn(20001)-10000)
		if n > 20 { // the moments have to fit TLC's integers
			ks = ks[:20]
		}
		if t.R.Intn(10) == 0 {
			ks = make([]int, 1+t.R.Intn(6))
			for j := range ks {
				ks[j] = t.R.Intn(200)
			}
		}
		if t.R.Intn(10) == 0 { // few among many values
			ks = make([]int, 200+t.R.Intn(400))
			at := t.R.Intn(len(ks))
			for j := 1 + t.R.Intn(4); j > 0; j-- {
				if t.R.Intn(2) == 0 {
					at = t.R.Intn(len(ks))
				}
				ks[(at+t.R.Intn(3))%len(ks)] += 1 + t.R.Intn(3)
			}
		}
		ok = ok && t.statCase(ks)
		x := make([]int, 1+t.R.Intn(40))
		m, most := 1+t.R.Intn(14), 12
		if t.R.Intn(20) == 0 {
			x = make([]int, 40+t.R.Intn(160))
			m = 1 + t.R.Intn(100)
		}
		if t.R.Intn(4) == 0 {
			most = 100
		}
		if i%60 == 30 {
			x = make([]int, 600+t.R.Intn(800))
			m, most = 1+t.R.Intn(3), 8
		}
		for j := range x {
			x[j] = t.R.Intn(most) - most/4
		}
		ok = ok && t.quantileCase(x, m)
	}
}
