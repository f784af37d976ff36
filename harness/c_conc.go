package main

import (
	"encoding/json"
	"math/rand"
	"runtime"
	"sort"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"github.com/RenatoGeh/gospn/conc"
)

func init() { drivers["C12"] = driveC12 }

// asTest runs f as a test (bubbles need one) and ends the process.
func asTest(t *T, f func(tt *testing.T)) {
	testing.Init()
	testing.Main(func(pat, str string) (bool, error) { return true, nil },
		[]testing.InternalTest{{Name: "drive", F: func(tt *testing.T) {
			f(tt)
			t.Finish()
		}}}, nil, nil)
}

type qop struct {
	Op string
	X  int
}

// qWorld watches a queue from outside: what was called, what came back, what runs.
type qWorld struct {
	t       *T
	q       *conc.SingleQueue
	mu      sync.Mutex
	pending map[int]bool // Run called, has not come back
	running []int
	fin     []int
	gate    map[int]chan bool
	waiting int
}

func (w *qWorld) settle() {
	synctest.Wait()
	time.Sleep(time.Second) // the bubble's clock; for implementations that poll
	synctest.Wait()
}

func (w *qWorld) event(op string, x int) {
	w.mu.Lock()
	defer w.mu.Unlock()
	p := []int{}
	for k := range w.pending {
		p = append(p, k)
	}
	sort.Ints(p)
	r := append([]int{}, w.running...)
	f := append([]int{}, w.fin...)
	sort.Ints(r)
	w.t.Emit(Ev{"op": op, "x": x, "pending": p, "running": r, "finished": f, "waiting": w.waiting})
}

func (w *qWorld) many(op string, xs []int) {
	w.mu.Lock()
	defer w.mu.Unlock()
	p := []int{}
	for k := range w.pending {
		p = append(p, k)
	}
	sort.Ints(p)
	r := append([]int{}, w.running...)
	f := append([]int{}, w.fin...)
	sort.Ints(r)
	w.t.Emit(Ev{"op": op, "xs": xs, "pending": p, "running": r, "finished": f, "waiting": w.waiting})
}

func (w *qWorld) run(k int) {
	w.submit(k)
	w.settle()
	w.event("run", k)
}

// runAll submits several functions at once, finishAll lets several finish at once.
func (w *qWorld) runAll(ks []int) {
	for _, k := range ks {
		w.submit(k)
	}
	w.settle()
	w.many("runall", ks)
}

func (w *qWorld) finishAll(k int) {
	w.mu.Lock()
	r := append([]int{}, w.running...)
	w.mu.Unlock()
	sort.Ints(r)
	if k > len(r) {
		k = len(r)
	}
	for _, id := range r[:k] {
		w.gate[id] <- true
	}
	w.settle()
	w.many("finishall", r[:k])
}

func (w *qWorld) submit(k int) {
	w.mu.Lock()
	w.pending[k] = true
	w.gate[k] = make(chan bool, 8)
	w.mu.Unlock()
	go func() {
		w.q.Run(func(id int) {
			w.mu.Lock()
			w.running = append(w.running, id)
			g := w.gate[id]
			w.mu.Unlock()
			<-g
			w.mu.Lock()
			for i, x := range w.running {
				if x == id {
					w.running = append(w.running[:i], w.running[i+1:]...)
					break
				}
			}
			w.fin = append(w.fin, id)
			w.mu.Unlock()
		}, k)
		w.mu.Lock()
		delete(w.pending, k)
		w.mu.Unlock()
	}()
}

func (w *qWorld) finish(rank int) bool {
	w.mu.Lock()
	r := append([]int{}, w.running...)
	w.mu.Unlock()
	sort.Ints(r)
	if rank < 1 || rank > len(r) {
		return false
	}
	id := r[rank-1]
	w.gate[id] <- true
	w.settle()
	w.event("finish", id)
	return true
}

func (w *qWorld) wait() {
	w.mu.Lock()
	w.waiting++
	w.mu.Unlock()
	go func() {
		w.q.Wait()
		w.mu.Lock()
		w.waiting--
		w.mu.Unlock()
	}()
	w.settle()
	w.event("wait", 0)
}

func playQueue(t *T, tt *testing.T, h []qop) {
	synctest.Test(tt, func(*testing.T) {
		w := &qWorld{t: t, pending: map[int]bool{}, gate: map[int]chan bool{}}
		w.q = conc.NewSingleQueue(h[0].X)
		t.Emit(Ev{"op": "create", "x": h[0].X, "allowed": w.q.Allowed()})
		last := 0
		for _, o := range h[1:] {
			switch o.Op {
			case "run":
				w.run(o.X)
				last = o.X
			case "runall":
				ks := []int{}
				for j := 0; j < o.X; j++ {
					last++
					ks = append(ks, last)
				}
				w.runAll(ks)
			case "finishall":
				w.finishAll(o.X)
			case "finish":
				w.finish(o.X)
			case "wait":
				w.wait()
			}
		}
		for w.finish(1) {
		}
		w.wait()
	})
}

func driveC12(t *T) { asTest(t, func(tt *testing.T) { c12(t, tt) }) }

func c12(t *T, tt *testing.T) {
	t.specLines(func(b []byte) {
		var h []qop
		if err := json.Unmarshal(b, &h); err != nil {
			panic(err)
		}
		t.Case("schedule enumerated by TLC", string(b))
		playQueue(t, tt, h)
	})
	for i := 0; i < t.Pick(60, 1500); i++ {
		n := 1 + t.R.Intn(6)
		h := []qop{{"create", n}}
		k := 0
		for j := 0; j < 30; j++ {
			switch t.R.Intn(5) {
			case 0, 1:
				k++
				h = append(h, qop{"run", k})
			case 2, 3:
				h = append(h, qop{"finish", 1 + t.R.Intn(n)})
			case 4:
				if t.R.Intn(3) == 0 {
					h = append(h, qop{"wait", 0})
				}
			}
		}
		t.Case("random schedule", "")
		playQueue(t, tt, h)
	}
	for i := 0; i < t.Pick(60, 1500); i++ { // as many finish at once as wait for a slot, and more
		n := 2 + t.R.Intn(6)
		h := []qop{{"create", n}, {"runall", 1 + t.R.Intn(n)}, {"runall", n + t.R.Intn(5)}}
		if t.R.Intn(2) == 0 {
			h = append(h, qop{"wait", 0})
		}
		for j := 0; j < 6; j++ {
			h = append(h, qop{"finishall", 1 + t.R.Intn(n)})
			if t.R.Intn(2) == 0 {
				h = append(h, qop{"runall", 1 + t.R.Intn(3)})
			}
		}
		t.Case("several at once", "")
		playQueue(t, tt, h)
	}
	for i := 0; i < 4; i++ { // numbers of any size
		h := []qop{{"create", 1 + t.R.Intn(3)}}
		for j := 0; j < 6; j++ {
			h = append(h, qop{"run", 1<<uint(8+7*i) - 3 + j})
		}
		t.Case("large numbers", "")
		playQueue(t, tt, h)
	}
	for _, n := range []int{30 + t.R.Intn(30), 100 + t.R.Intn(100), 257 + t.R.Intn(100)} { // many slots, all taken
		h := []qop{{"create", n}}
		for k := 1; k <= n+3; k++ {
			h = append(h, qop{"run", k})
		}
		h = append(h, qop{"wait", 0})
		for k := 0; k < n+3; k++ {
			h = append(h, qop{"finish", 1})
		}
		t.Case("many slots", "")
		playQueue(t, tt, h)
	}
	for i := 0; i < t.Pick(60, 800); i++ {
		if !stressQueue(t, i) {
			return
		}
	}
}

// stressQueue lets the real scheduler decide.
func stressQueue(t *T, i int) bool {
	n := []int{1, 2, 3, 4, 8, 0, -1}[t.R.Intn(7)]
	slots := n
	if n <= 0 {
		slots = runtime.NumCPU()
	}
	subs := 1 + i%3
	per := 20 + t.R.Intn(60)
	ran := make([]int, subs*per) // written by the functions, read after Wait
	var now, most int64
	q := conc.NewSingleQueue(n)
	e := Ev{"op": "stress", "slots": slots, "tasks": subs * per}
	t.Case("free-running", "")
	return t.do(e, func() {
		e["allowed"] = q.Allowed()
		var sub sync.WaitGroup
		seeds := make([]int64, subs)
		for s := range seeds {
			seeds[s] = t.R.Int63()
		}
		for s := 0; s < subs; s++ {
			sub.Add(1)
			go func(s int) {
				defer sub.Done()
				r := rand.New(rand.NewSource(seeds[s]))
				for j := 0; j < per; j++ {
					spin := r.Intn(200)
					q.Run(func(id int) {
						v := atomic.AddInt64(&now, 1)
						for {
							m := atomic.LoadInt64(&most)
							if v <= m || atomic.CompareAndSwapInt64(&most, m, v) {
								break
							}
						}
						for x := 0; x < spin; x++ {
							if x%20 == 0 {
								runtime.Gosched()
							}
						}
						atomic.AddInt64(&now, -1)
						ran[id]++
					}, s*per+j)
				}
			}(s)
		}
		sub.Wait()
		q.Wait()
		seen := 0
		for _, c := range ran {
			seen += c
		}
		e["ran"], e["seen"], e["most"] = ran, seen, most
	})
}
