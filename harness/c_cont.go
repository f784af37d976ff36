package main

import (
	"encoding/json"
	"math"
	"math/rand"
	"sync"

	"github.com/RenatoGeh/gospn/common"
	"github.com/RenatoGeh/gospn/learn/parameters"
	"github.com/RenatoGeh/gospn/spn"
	"github.com/RenatoGeh/gospn/sys"
)

func init() {
	drivers["C06"] = driveC06
	drivers["C11"] = driveC11
	drivers["C14"] = driveC14
}

// do runs one event; after a failure the driver stops.
func (t *T) do(e Ev, f func()) bool {
	err := Call(f)
	if err != "" {
		e["err"] = err
	}
	t.Emit(e)
	return err == ""
}

// ---------------------------------------------------------------- Storer

type storerWorld struct {
	t      *T
	st     *spn.Storer
	nodes  []spn.SPN
	slots  []int
	issued []int
	held   map[int]spn.StorerTable // handles that have not been reset since
}

func newStorerWorld(t *T, nn int, slots []int) *storerWorld {
	w := &storerWorld{t: t, slots: slots, held: map[int]spn.StorerTable{}}
	for i := 0; i < nn; i++ {
		switch i % 3 {
		case 0:
			w.nodes = append(w.nodes, spn.NewSum())
		case 1:
			w.nodes = append(w.nodes, spn.NewProduct())
		default:
			w.nodes = append(w.nodes, spn.NewIndicator(0, 0))
		}
	}
	w.st = spn.NewStorer()
	t.Emit(Ev{"op": "case"})
	return w
}

func (w *storerWorld) newTicket() bool {
	e := Ev{"op": "new"}
	return w.t.do(e, func() {
		k := w.st.NewTicket()
		e["k"] = k
		w.issued = append(w.issued, k)
	})
}

func (w *storerWorld) store(k, n, s, v int) bool {
	e := Ev{"op": "store", "k": k, "n": n, "s": s, "v": v}
	api := w.t.R.Intn(3)
	return w.t.do(e, func() {
		S := w.nodes[n-1]
		if tab, ok := w.held[k]; ok && api == 1 {
			if s == 0 && w.t.R.Intn(2) == 0 {
				e["ok"] = tab.StoreSingle(S, float64(v))
			} else {
				e["ok"] = tab.Store(S, s, float64(v))
			}
			return
		}
		if s == 0 && api == 2 {
			e["ok"] = w.st.StoreSingle(k, S, float64(v))
		} else {
			e["ok"] = w.st.Store(k, S, s, float64(v))
		}
	})
}

func (w *storerWorld) del(k int) bool {
	delete(w.held, k)
	return w.t.do(Ev{"op": "delete", "k": k}, func() { w.st.Delete(k) })
}

func (w *storerWorld) reset(k int) bool {
	delete(w.held, k)
	e := Ev{"op": "reset", "k": k}
	return w.t.do(e, func() { e["res"] = w.st.Reset(k) })
}

func (w *storerWorld) resetAll(ks []int) bool {
	for _, k := range ks {
		delete(w.held, k)
	}
	return w.t.do(Ev{"op": "resetall", "ks": ks}, func() { w.st.ResetTickets(ks...) })
}

func (w *storerWorld) purge() bool {
	w.held = map[int]spn.StorerTable{}
	w.issued = nil
	return w.t.do(Ev{"op": "purge"}, func() { w.st.Purge() })
}

func num(v float64) int {
	if v != math.Trunc(v) || math.Abs(v) > 1e9 {
		return -999999
	}
	return int(v)
}

func (w *storerWorld) look(ks []int) bool {
	e := Ev{"op": "look"}
	return w.t.do(e, func() {
		probes := []Ev{}
		for _, k := range ks {
			tab, live := w.st.Table(k)
			if live {
				if _, ok := w.held[k]; !ok && w.t.R.Intn(3) == 0 {
					w.held[k] = tab
				}
			} else {
				delete(w.held, k)
			}
			if h, ok := w.held[k]; ok && w.t.R.Intn(2) == 0 {
				tab = h
			}
			viaTab := w.t.R.Intn(2) == 0 && live
			ents, nodes := []Ev{}, []Ev{}
			for i, S := range w.nodes {
				for _, s := range w.slots {
					x := Ev{"n": i + 1, "s": s}
					var v float64
					var ok, ex bool
					if viaTab {
						v, ok = tab.Entry(S, s)
						ex = tab.Exists(S, s)
						if s == 0 {
							v, ok = tab.Single(S)
						}
					} else {
						v, ok = w.st.Entry(k, S, s)
						ex = w.st.Exists(k, S, s)
						if s == 0 {
							v, ok = w.st.Single(k, S)
						}
					}
					x["v"], x["ok"], x["ex"] = num(v), ok, ex
					ents = append(ents, x)
				}
				x := Ev{"n": i + 1}
				var m map[int]float64
				if viaTab {
					m, x["ok"] = tab.Value(S)
					x["ex"] = tab.ExistsSPN(S)
				} else {
					m, x["ok"] = w.st.Value(k, S)
					x["ex"] = w.st.ExistsSPN(k, S)
				}
				im := map[int]int{}
				for a, b := range m {
					im[a] = num(b)
				}
				x["vals"] = Pairs(im)
				nodes = append(nodes, x)
			}
			probes = append(probes, Ev{"k": k, "live": live, "ents": ents, "nodes": nodes})
		}
		e["probes"] = probes
	})
}

type hop struct {
	Op         string
	K, N, S, V int
	O, Q       int
}

func driveC06(t *T) {
	t.specLines(func(b []byte) {
		var h []hop
		if err := json.Unmarshal(b, &h); err != nil {
			panic(err)
		}
		t.Case("history enumerated by TLC", string(b))
		w := newStorerWorld(t, 2, []int{0, 1})
		for _, o := range h {
			ok := true
			switch o.Op {
			case "new":
				ok = w.newTicket()
			case "store":
				ok = w.store(w.issued[o.K], o.N, o.S, o.V)
			case "delete":
				ok = w.del(w.issued[o.K])
			case "reset":
				ok = w.reset(w.issued[o.K])
			case "resetall":
				ok = w.resetAll(w.issued)
			case "purge":
				ok = w.purge()
			}
			if !ok {
				return
			}
		}
		w.look([]int{0, 1, 2})
	})
	for i := 0; i < t.Pick(60, 1500); i++ {
		t.Case("random history", "")
		slots := []int{0, 1, 2, 37, -1, 70000}[:4+2*t.R.Intn(2)]
		switch i % 4 {
		case 1: // positions apart by powers of two, negative ones too
			slots = nil
			for len(slots) < 9 {
				b := t.R.Intn(3)
				slots = append(slots, b, b+1<<uint(1+t.R.Intn(18)), b-1<<uint(1+t.R.Intn(18)))
			}
			slots = uniq(slots)
		case 3: // a row of positions
			slots = nil
			for s := 0; s < 20+t.R.Intn(40); s++ {
				slots = append(slots, s)
			}
		}
		w := newStorerWorld(t, 2+t.R.Intn(5), slots)
		sys.MemConservative = i%20 == 0
		if i%15 == 7 { // many tickets
			for j := 0; j < 300; j++ {
				if !w.newTicket() {
					return
				}
			}
		}
		pick := func() int {
			if len(w.issued) == 0 || t.R.Intn(20) == 0 {
				return 9000 + t.R.Intn(3) // never handed out
			}
			return w.issued[t.R.Intn(len(w.issued))]
		}
		dead := func(k int) bool {
			for _, j := range w.issued {
				if j == k {
					return false
				}
			}
			return true
		}
		for j := 0; j < 40; j++ {
			ok := true
			k := pick()
			switch r := t.R.Intn(20); {
			case r < 3 || len(w.issued) == 0:
				ok = w.newTicket()
			case r < 12:
				n := 1 + t.R.Intn(len(w.nodes))
				if i%4 == 3 && t.R.Intn(3) == 0 { // a whole row at once
					for _, s := range w.slots {
						ok = ok && w.store(k, n, s, 1+t.R.Intn(1000))
					}
					break
				}
				ok = w.store(k, n, w.slots[t.R.Intn(len(w.slots))], []int{0, -t.R.Intn(9), 1 + t.R.Intn(1000)}[t.R.Intn(3)])
			case r < 13:
				ok = w.del(k)
			case r < 14 && !dead(k):
				ok = w.reset(k)
			case r < 15:
				var ks []int
				for _, k := range w.issued {
					if t.R.Intn(2) == 0 {
						ks = append(ks, k)
					}
				}
				if len(ks) > 0 {
					ok = w.resetAll(ks)
				}
			case r == 15 && t.R.Intn(4) == 0:
				ok = w.purge()
			default:
				ok = w.look([]int{k, pick()})
			}
			if !ok {
				return
			}
		}
		last := w.issued
		if len(last) > 20 {
			last = append(append([]int{}, last[:6]...), last[len(last)-6:]...)
		}
		if !w.look(append([]int{9001}, last...)) {
			return
		}
	}
	sys.MemConservative = false
	for i := 0; i < t.Pick(30, 400); i++ {
		t.Case("parallel stores", "")
		if !storerParallel(t) {
			return
		}
	}
}

// storerParallel stores and reads through several tickets at once, each in its own goroutine. What one
// goroutine does does not concern the others, so the history may be told one ticket after the other.
func storerParallel(t *T) bool {
	w := newStorerWorld(t, 3, []int{0, 1})
	g := 2 + t.R.Intn(5)
	for j := 0; j < g; j++ {
		if !w.newTicket() {
			return false
		}
	}
	type op struct{ n, s, v int }
	plan := make([][]op, g)
	for j := range plan {
		for k := 0; k < 15; k++ {
			plan[j] = append(plan[j], op{1 + t.R.Intn(3), t.R.Intn(2), t.R.Intn(100)})
		}
	}
	ok := make([][]bool, g)
	start := make(chan bool)
	var wg sync.WaitGroup
	errs := make([]string, g)
	for j := 0; j < g; j++ {
		wg.Add(1)
		go func(j int) {
			defer wg.Done()
			errs[j] = Call(func() {
				<-start
				k := w.issued[j]
				tab, _ := w.st.Table(k)
				for i, o := range plan[j] {
					switch i % 3 {
					case 0:
						ok[j] = append(ok[j], w.st.Store(k, w.nodes[o.n-1], o.s, float64(o.v)))
					case 1:
						ok[j] = append(ok[j], tab.Store(w.nodes[o.n-1], o.s, float64(o.v)))
					default:
						w.st.Single(k, w.nodes[o.n-1])
						ok[j] = append(ok[j], w.st.Store(k, w.nodes[o.n-1], o.s, float64(o.v)))
					}
				}
			})
		}(j)
	}
	close(start)
	wg.Wait()
	for j := range plan {
		for i, o := range plan[j] {
			e := Ev{"op": "store", "k": w.issued[j], "n": o.n, "s": o.s, "v": o.v}
			if errs[j] != "" {
				e["err"] = errs[j]
				t.Emit(e)
				return false
			}
			e["ok"] = ok[j][i]
			t.Emit(e)
		}
	}
	return w.look(w.issued)
}

// ---------------------------------------------------------------- collections

type collWorld struct {
	t  *T
	cs []common.Collection
	n  []int // sizes the driver expects, only used to avoid taking from an empty collection
}

func (w *collWorld) create(kind string) bool {
	var c common.Collection = &common.Queue{}
	if kind == "stack" {
		c = &common.Stack{}
	}
	w.cs = append(w.cs, c)
	w.n = append(w.n, 0)
	w.t.Emit(Ev{"op": "create", "kind": kind})
	return true
}

func (w *collWorld) step(i int, op string, x int) bool {
	c := w.cs[i]
	e := Ev{"op": op, "i": i + 1}
	generic := w.t.R.Intn(2) == 0
	if (op == "take" || op == "back") && w.n[i] == 0 {
		return true
	}
	return w.t.do(e, func() {
		switch op {
		case "give":
			e["x"] = x
			w.n[i]++
			switch y := c.(type) {
			case *common.Queue:
				if generic {
					y.Give(x)
				} else {
					y.Enqueue(x)
				}
			case *common.Stack:
				if generic {
					y.Give(x)
				} else {
					y.Push(x)
				}
			}
		case "take":
			w.n[i]--
			var r interface{}
			switch y := c.(type) {
			case *common.Queue:
				if generic {
					r = y.Take()
				} else {
					r = y.Dequeue()
				}
			case *common.Stack:
				if generic {
					r = y.Take()
				} else {
					r = y.Pop()
				}
			}
			e["r"] = r
		case "back":
			w.n[i]--
			e["r"] = c.(*common.Queue).DequeueBack()
		case "invert":
			e["same"] = c.Invert() == c
		case "reset":
			w.n[i] = 0
			c.Reset()
		case "shrink":
			c.Shrink()
		}
		if e["r"] == nil {
			e["r"] = -1
		}
	})
}

func (w *collWorld) look(i int) bool {
	e := Ev{"op": "look", "i": i + 1}
	c := w.cs[i]
	return w.t.do(e, func() {
		n := c.Size()
		e["size"], e["empty"], e["peek"] = n, c.Empty(), -1
		gets := [][2]int{}
		if w.n[i] > 0 {
			e["peek"] = c.Peek()
			step := 1
			if n > 12 {
				step = n / 6
			}
			for j := 0; j < n; j += step {
				v, ok := c.Get(j).(int)
				if !ok {
					v = -1
				}
				gets = append(gets, [2]int{j, v})
			}
			if n > 0 {
				v, ok := c.Get(n - 1).(int)
				if !ok {
					v = -1
				}
				gets = append(gets, [2]int{n - 1, v})
			}
		}
		e["gets"] = gets
	})
}

func driveC11(t *T) {
	old := sys.MemLowBoundShrink
	defer func() { sys.MemLowBoundShrink = old }()
	n := 0
	t.specLines(func(b []byte) {
		var h []string
		if err := json.Unmarshal(b, &h); err != nil {
			panic(err)
		}
		t.Case("history enumerated by TLC", string(b))
		sys.MemLowBoundShrink = []int{1024, 0, 2}[n%3]
		n++
		w := &collWorld{t: t}
		t.Emit(Ev{"op": "case"})
		w.create(h[0])
		for i, op := range h[1:] {
			if !w.step(0, op, i+1) {
				return
			}
		}
		w.look(0)
		for w.n[0] > 0 {
			if !w.step(0, "take", 0) {
				return
			}
		}
		w.look(0)
	})
	for i := 0; i < t.Pick(60, 1200); i++ {
		t.Case("random history", "")
		sys.MemLowBoundShrink = []int{1024, 1024, 0, 1, 8, 50}[t.R.Intn(6)]
		w := &collWorld{t: t}
		t.Emit(Ev{"op": "case"})
		for j := 0; j < 1+t.R.Intn(4); j++ {
			w.create([]string{"queue", "stack"}[t.R.Intn(2)])
		}
		bias := t.R.Intn(12)
		for j := 0; j < 200; j++ {
			k := t.R.Intn(len(w.cs))
			if j%50 == 0 {
				bias = t.R.Intn(14)
			}
			op := "look"
			switch r := t.R.Intn(20); {
			case r < bias:
				op = "give"
			case r < 13:
				op = "take"
			case r < 15:
				op = "back"
				if _, ok := w.cs[k].(*common.Queue); !ok {
					op = "take"
				}
			case r == 15:
				op = "invert"
			case r == 16 && t.R.Intn(8) == 0:
				op = "reset"
			case r == 17:
				op = "shrink"
			}
			ok := true
			if op == "look" {
				ok = w.look(k)
			} else {
				ok = w.step(k, op, 1+t.R.Intn(100000))
			}
			if !ok {
				return
			}
		}
		for k := range w.cs {
			w.look(k)
		}
	}
	// Grown, emptied in one way or another, and used again.
	for i := 0; i < t.Pick(24, 300); i++ {
		t.Case("used again", "")
		sys.MemLowBoundShrink = []int{1024, 0, 8, 50}[i%4]
		w := &collWorld{t: t}
		t.Emit(Ev{"op": "case"})
		w.create([]string{"queue", "stack"}[i/4%2])
		for round := 0; round < 2+t.R.Intn(3); round++ {
			size := []int{1, 5, 40, 64, 130, 300}[t.R.Intn(6)] + t.R.Intn(5)
			for j := 0; j < size; j++ {
				if !w.step(0, "give", 1+t.R.Intn(100000)) {
					return
				}
			}
			ok := true
			for j := t.R.Intn(size); j > 0 && ok && t.R.Intn(40) > 0; j-- {
				ok = w.step(0, "take", 0)
			}
			if t.R.Intn(2) == 0 {
				ok = ok && w.step(0, "invert", 0)
			}
			ok = ok && w.look(0)
			switch t.R.Intn(4) {
			case 0, 1:
				ok = ok && w.step(0, "reset", 0)
			case 2:
				ok = ok && w.step(0, "shrink", 0)
			default:
				for w.n[0] > 0 && ok {
					ok = w.step(0, "take", 0)
				}
			}
			if !ok || !w.look(0) {
				return
			}
		}
	}
	// Past the size at which memory is given back.
	for i := 0; i < t.Pick(2, 10); i++ {
		sys.MemLowBoundShrink = 1024
		w := &collWorld{t: t}
		t.Case("large", "")
		t.Emit(Ev{"op": "case"})
		w.create([]string{"queue", "stack"}[i%2])
		for j := 0; j < 1100; j++ {
			if !w.step(0, "give", j) {
				return
			}
		}
		for j := 0; j < 700; j++ {
			op := "take"
			if i%4 == 2 && j%2 == 0 {
				op = "back"
			}
			if !w.step(0, op, 0) {
				return
			}
			if j%50 == 0 && !w.look(0) {
				return
			}
		}
	}
}

// ---------------------------------------------------------------- parameters

var typeNames = map[int]string{parameters.HardGD: "HardGD", parameters.SoftGD: "SoftGD", parameters.HardEM: "HardEM", parameters.SoftEM: "SoftEM"}

func micro(x float64) int { return int(math.Round(x * 1e6)) }

func optsOf(p *parameters.P) Ev {
	lt, ok := typeNames[p.LearningType]
	if !ok {
		lt = "?"
	}
	return Ev{"norm": p.Normalize, "hw": p.HardWeight, "sm": micro(p.SmoothSum), "lt": lt,
		"eta": micro(p.Eta), "eps": micro(p.Epsilon), "bs": p.BatchSize, "la": micro(p.Lambda), "it": p.Iterations}
}

type parWorld struct {
	t    *T
	objs []spn.SPN
	ids  map[*parameters.P]int
	ps   []*parameters.P
}

func newParWorld(t *T, n int, kinds bool) *parWorld {
	w := &parWorld{t: t, ids: map[*parameters.P]int{}}
	for i := 0; i < n; i++ {
		k := i % 5
		if !kinds {
			k = t.R.Intn(5)
		}
		switch k {
		case 0:
			w.objs = append(w.objs, spn.NewSum())
		case 1:
			w.objs = append(w.objs, spn.NewProduct())
		case 2:
			w.objs = append(w.objs, spn.NewMultinomial(0, []float64{0.5, 0.5}))
		case 3:
			w.objs = append(w.objs, spn.NewIndicator(0, 0))
		case 4:
			w.objs = append(w.objs, spn.NewGaussianParams(0, 0, 1))
		}
	}
	t.Emit(Ev{"op": "case"})
	return w
}

func (w *parWorld) id(p *parameters.P) int {
	if p == nil {
		return 0
	}
	if k, ok := w.ids[p]; ok {
		return k
	}
	w.ps = append(w.ps, p)
	w.ids[p] = len(w.ps)
	return len(w.ps)
}

func randP(r *rand.Rand) (*parameters.P, Ev) {
	lt := []int{parameters.HardGD, parameters.SoftGD, parameters.HardEM, parameters.SoftEM}[r.Intn(4)]
	n, h := r.Intn(2) == 0, r.Intn(2) == 0
	a, b, c, d := r.Intn(1000), r.Intn(1000), r.Intn(1000), r.Intn(1000)
	bs, it := r.Intn(50), r.Intn(50)
	f := func(k int) float64 { return float64(k) / 1e3 }
	p := parameters.New(n, h, f(a), lt, f(b), f(c), bs, f(d), it)
	return p, Ev{"norm": n, "hw": h, "sm": a * 1000, "lt": typeNames[lt], "eta": b * 1000, "eps": c * 1000, "bs": bs, "la": d * 1000, "it": it}
}

func (w *parWorld) bindNew(o int) bool {
	e := Ev{"op": "make"}
	p, opts := randP(w.t.R)
	e["opts"], e["p"] = opts, w.id(p)
	w.t.Emit(e)
	return w.bind(o, p)
}

func (w *parWorld) bind(o int, p *parameters.P) bool {
	return w.t.do(Ev{"op": "bind", "o": o, "p": w.id(p)}, func() { parameters.Bind(w.objs[o-1], p) })
}

func (w *parWorld) unbind(o int) bool {
	return w.t.do(Ev{"op": "unbind", "o": o}, func() { parameters.Unbind(w.objs[o-1]) })
}

func (w *parWorld) ask(o int) bool {
	e := Ev{"op": "ask", "o": o}
	return w.t.do(e, func() { e["p"] = w.id(w.objs[o-1].Parameters()) })
}

func (w *parWorld) set(p *parameters.P, x int) bool {
	e := Ev{"op": "set", "p": w.id(p)}
	return w.t.do(e, func() {
		p.Eta = float64(x) / 1000
		e["opts"] = optsOf(p)
	})
}

func (w *parWorld) lookup(o int) bool {
	e := Ev{"op": "lookup", "o": o}
	return w.t.do(e, func() {
		ex := parameters.Exists(w.objs[o-1])
		p, ok := parameters.Retrieve(w.objs[o-1])
		e["ex"], e["found"], e["p"] = ex, ok, w.id(p)
	})
}

func (w *parWorld) options(p *parameters.P) {
	w.t.Emit(Ev{"op": "options", "p": w.id(p), "opts": optsOf(p)})
}

func (w *parWorld) all() bool {
	for o := range w.objs {
		if !w.lookup(o + 1) {
			return false
		}
	}
	for _, p := range w.ps {
		w.options(p)
	}
	return true
}

func (w *parWorld) done() {
	for _, o := range w.objs {
		parameters.Unbind(o)
	}
}

func driveC14(t *T) {
	t.Emit(Ev{"op": "default", "opts": optsOf(parameters.Default())})
	for k, n := range typeNames {
		e := Ev{"op": "kind", "t": n, "method": "?", "hardness": "?"}
		t.do(e, func() {
			switch parameters.Method(k) {
			case parameters.GD:
				e["method"] = "GD"
			case parameters.EM:
				e["method"] = "EM"
			}
			switch parameters.Hardness(k) {
			case parameters.Hard:
				e["hardness"] = "Hard"
			case parameters.Soft:
				e["hardness"] = "Soft"
			}
		})
	}
	t.specLines(func(b []byte) {
		var h []hop
		if err := json.Unmarshal(b, &h); err != nil {
			panic(err)
		}
		t.Case("history enumerated by TLC", string(b))
		w := newParWorld(t, 3, false)
		defer w.done()
		for _, o := range h {
			ok := true
			switch o.Op {
			case "bindnew":
				ok = w.bindNew(o.O)
			case "share":
				p, _ := parameters.Retrieve(w.objs[o.Q-1])
				ok = w.bind(o.O, p)
			case "unbind":
				ok = w.unbind(o.O)
			case "ask":
				ok = w.ask(o.O)
			case "set":
				p, _ := parameters.Retrieve(w.objs[o.O-1])
				ok = w.set(p, t.R.Intn(500))
			}
			if !ok {
				return
			}
		}
		w.all()
	})
	for i := 0; i < t.Pick(150, 3000); i++ {
		t.Case("random history", "")
		w := newParWorld(t, 5, i%2 == 0)
		for j := 0; j < 25; j++ {
			o := 1 + t.R.Intn(len(w.objs))
			ok := true
			switch r := t.R.Intn(12); {
			case r < 2:
				ok = w.bindNew(o)
			case r < 3 && len(w.ps) > 0:
				ok = w.bind(o, w.ps[t.R.Intn(len(w.ps))])
			case r < 5:
				ok = w.unbind(o)
			case r < 8:
				ok = w.ask(o)
			case r < 9 && len(w.ps) > 0:
				ok = w.set(w.ps[t.R.Intn(len(w.ps))], t.R.Intn(900))
			default:
				ok = w.lookup(o)
			}
			if !ok {
				return
			}
		}
		w.all()
		w.done()
	}
	// Many nodes at once.
	for i := 0; i < t.Pick(1, 4); i++ {
		t.Case("many nodes", "")
		n := []int{1200, 300, 3000, 5000}[i]
		w := newParWorld(t, n, true)
		for o := 1; o <= n; o++ {
			ok := true
			switch {
			case o%3 == 0 && len(w.ps) > 0:
				ok = w.bind(o, w.ps[t.R.Intn(len(w.ps))])
			case o%7 == 0:
				ok = w.ask(o)
			case o%11 != 0:
				ok = w.bindNew(o)
			}
			if !ok {
				return
			}
		}
		w.all()
		w.done()
	}
	// Goroutines with their own nodes.
	for i := 0; i < t.Pick(20, 200); i++ {
		t.Case("parallel", "")
		const n = 8
		want, got := make([]int, n), make([]int, n)
		e := Ev{"op": "parallel", "want": want, "got": got}
		t.do(e, func() {
			var wg sync.WaitGroup
			for g := 0; g < n; g++ {
				wg.Add(1)
				go func(g int) {
					defer wg.Done()
					s := spn.NewSum()
					for r := 0; r < 20; r++ {
						p := parameters.Default()
						p.Iterations = g*1000 + r
						parameters.Bind(s, p)
						want[g] += p.Iterations
						got[g] += s.Parameters().Iterations
						parameters.Unbind(s)
						if parameters.Exists(s) {
							got[g] = -1
						}
					}
				}(g)
			}
			wg.Wait()
		})
	}
}
