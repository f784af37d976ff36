package main

import (
	"encoding/json"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"regexp"
	"strings"
	"sync"
	"time"

	"github.com/RenatoGeh/gospn/common"
	"github.com/RenatoGeh/gospn/sys"
)

func init() { drivers["C26"] = driveC26 }

type sysOp struct {
	Op string
	S  int64
	W  []interface{}
	B  bool
	N  string
	K  string
}

func (t *T) refresh(s int64) {
	e := Ev{"op": "refresh", "s": s}
	e["err"] = Call(func() {
		r := sys.RefreshRandom(s)
		e["seed"], e["random"] = sys.Seed(), r != nil && r == sys.Random
	})
	t.Emit(e)
}

func arg(w []interface{}, i int) int {
	switch x := w[i].(type) {
	case float64:
		return int(x)
	case int:
		return x
	}
	panic("argument")
}

func (t *T) drawOp(w []interface{}) {
	e := Ev{"op": "draw", "w": w}
	r := []int{}
	e["err"] = Call(func() {
		switch w[0].(string) {
		case "intn":
			r = append(r, sys.RandIntn(arg(w, 1)))
		case "wide":
			r = append(r, sys.RandIntn(arg(w, 1)<<20)>>20)
		case "float":
			r = append(r, int(math.Floor(sys.RandFloat64()*(1<<30))))
		case "norm":
			r = append(r, int(math.Round(sys.RandNormFloat64()*1e6)))
		case "colour":
			r = rgb(common.RandColor())
		case "comb":
			for _, p := range sys.RandomComb(arg(w, 1), arg(w, 2), arg(w, 3)) {
				k := p[0]*arg(w, 2) + p[1]
				if p[0] < 0 || p[0] >= arg(w, 1) || p[1] < 0 || p[1] >= arg(w, 2) {
					k = -1
				}
				r = append(r, k)
			}
		}
	})
	e["r"] = r
	t.Emit(e)
}

// rgb reads a colour the way it is shown.
func rgb(c *common.Color) []int {
	var r, g, b int
	if n, _ := fmt.Sscanf(c.String(), "%d %d %d", &r, &g, &b); n != 3 {
		return []int{}
	}
	return []int{r, g, b}
}

var took = regexp.MustCompile(` took 1m[0-9.]+[a-zµ]+\.$`)

type logWorld struct {
	t      *T
	dir    string
	stdout *os.File
	old    *os.File
	open   []*os.File
	n      int
}

func (t *T) newLog(k int) *logWorld {
	w := &logWorld{t: t, dir: filepath.Join(t.Dir, fmt.Sprintf("log%d", k)), old: os.Stdout}
	os.MkdirAll(w.dir, 0755)
	f, err := os.Create(filepath.Join(w.dir, "stdout"))
	if err != nil {
		panic(err)
	}
	w.stdout = f
	os.Stdout = f
	sys.Verbose = false
	sys.SetLogFile("")
	return w
}

func (w *logWorld) close() {
	os.Stdout = w.old
	sys.Verbose = false
	sys.SetLogFile("")
	for _, f := range append(w.open, w.stdout) {
		f.Close()
	}
	os.RemoveAll(w.dir)
}

func (w *logWorld) step(o sysOp) {
	e := Ev{"op": o.Op}
	switch o.Op {
	case "verbose":
		sys.Verbose = o.B
		e["b"] = o.B
	case "setlog":
		e["n"] = o.N
		e["err"] = Call(func() {
			p := o.N
			if p != "" {
				p = filepath.Join(w.dir, p)
			}
			f, err := sys.SetLogFile(p)
			e["ok"] = err == nil
			if f != nil {
				w.open = append(w.open, f)
			}
		})
	case "print":
		w.n++
		msg := fmt.Sprintf("%s%d", o.K, w.n)
		e["msg"] = msg
		e["err"] = Call(func() {
			if w.n%9 == 0 { // a long line
				msg += strings.Repeat("-long", 20+w.t.R.Intn(3000))
				e["msg"] = msg
			}
			switch {
			case w.n%7 == 0:
				msg += " took"
				e["msg"] = msg
				sys.StartTimer()
				if d := sys.StopTimer(); d < 0 || d > time.Hour {
					panic("timer: " + d.String())
				}
				sys.MeasureTime(time.Now().Add(-time.Minute), msg[:len(msg)-5])
			case o.K == "l":
				sys.Println(msg)
			case w.n%9 == 0:
				sys.Printf("%s%s", msg, "\n")
			case w.n%2 == 0:
				sys.Printf("f%d\n", w.n)
			default:
				printf := sys.Printf
				printf(msg + "\n")
			}
		})
	}
	w.t.Emit(e)
}

func (w *logWorld) look() {
	var text [][]interface{}
	for _, n := range []string{"a", "b", "stdout"} {
		b, _ := os.ReadFile(filepath.Join(w.dir, n))
		ls := []string{}
		if len(b) > 0 {
			ls = strings.Split(strings.TrimSuffix(string(b), "\n"), "\n")
			for i, x := range ls {
				ls[i] = took.ReplaceAllString(x, " took")
			}
		}
		k := n
		if n == "stdout" {
			k = ""
		}
		text = append(text, []interface{}{k, ls})
	}
	at := filepath.Base(sys.LogFile().Name())
	if sys.LogFile() == w.stdout {
		at = ""
	}
	w.t.Emit(Ev{"op": "text", "text": text, "sink": at})
}

func (t *T) sysHistory(h []sysOp, k int) {
	t.Emit(Ev{"op": "case"})
	if h[0].Op == "refresh" || h[0].Op == "draw" {
		for again := 0; again < 2; again++ {
			t.refresh(1)
			for _, o := range h {
				if o.Op == "refresh" {
					t.refresh(o.S)
				} else {
					t.drawOp(o.W)
				}
			}
		}
		return
	}
	w := t.newLog(k)
	for _, o := range h {
		w.step(o)
		w.look()
	}
	w.close()
}

func (t *T) shared(s int64, n int) {
	per := 5 + t.R.Intn(20)
	who := 2 + t.R.Intn(4)
	alone, together := []int{}, []int{}
	e := Ev{"op": "shared"}
	e["err"] = Call(func() {
		sys.RefreshRandom(s)
		for i := 0; i < per*who; i++ {
			alone = append(alone, sys.RandIntn(n))
		}
		sys.RefreshRandom(s)
		var wg sync.WaitGroup
		res := make([][]int, who)
		for g := 0; g < who; g++ {
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				for i := 0; i < per; i++ {
					res[g] = append(res[g], sys.RandIntn(n))
				}
			}(g)
		}
		wg.Wait()
		for _, r := range res {
			together = append(together, r...)
		}
		// all of it at once
		for g := 0; g < 6; g++ {
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				for i := 0; i < 20; i++ {
					switch (g + i) % 6 {
					case 0:
						sys.RefreshRandom(int64(g))
					case 1:
						sys.Seed()
					case 2:
						sys.RandFloat64()
					case 3:
						sys.RandNormFloat64()
					case 4:
						sys.RandomComb(2, 3, 2)
					case 5:
						sys.RandIntn(4)
					}
				}
			}(g)
		}
		wg.Wait()
	})
	e["alone"], e["together"] = alone, together
	t.Emit(e)
}

func (t *T) colours() {
	t.Emit(Ev{"op": "case"})
	scale := func(h, s, v, max, min int) {
		// value v/16 as a point of [0,max] above a minimum brightness, exactly
		e := Ev{"op": "scale", "h": h, "s": s, "v": v}
		e["err"] = Call(func() {
			minB := float64(min) / 16
			p := 0.0
			if min < 16 {
				p = float64(v-min) / float64(16-min) * float64(max)
			}
			c := common.RandColorScale(p, float64(max), float64(h)*15, float64(s)/16, minB)
			e["rgb"] = rgb(c)
		})
		t.Case("colour scale", fmt.Sprint(h, s, v))
		t.Emit(e)
	}
	for h := 0; h <= 24; h++ {
		for s := 0; s <= 16; s += 2 {
			for v := 0; v <= 16; v += 4 {
				scale(h, s, v, 16, 0)
			}
		}
		scale(h, 1+t.R.Intn(16), 8+t.R.Intn(9), 8, 8)
		scale(h, 1+t.R.Intn(16), 12+t.R.Intn(5), 4, 12)
	}
	for i := 0; i < t.Pick(150, 2000); i++ {
		h := t.R.Intn(25)
		s := t.R.Int63n(1000)
		e := Ev{"op": "tone", "h": h}
		e["err"] = Call(func() {
			sys.RefreshRandom(s)
			a, b := sys.RandFloat64(), sys.RandFloat64()
			sys.RefreshRandom(s)
			e["values"] = []int{int(255 * a), int(255 * b)}
			e["rgb"] = rgb(common.RandTone(float64(h) * 15))
		})
		t.Case("tone", fmt.Sprint(h, s))
		t.Emit(e)
	}
	for i := 0; i < 60; i++ {
		r := []int{t.R.Intn(256), t.R.Intn(256), t.R.Intn(256)}
		e := Ev{"op": "colour", "rgb": r}
		e["err"] = Call(func() {
			c := common.NewColor(r[0], r[1], r[2])
			if i < 5 {
				c = []*common.Color{common.Red, common.Green, common.Blue, common.White, common.Black}[i]
				r = [][]int{{255, 0, 0}, {0, 255, 0}, {0, 0, 255}, {255, 255, 255}, {0, 0, 0}}[i]
				e["rgb"] = r
			}
			p := filepath.Join(t.Dir, "colour")
			f, err := os.Create(p)
			if err != nil {
				panic(err)
			}
			if i%2 == 0 {
				common.DrawColor(f, c)
			} else {
				common.DrawColorRGB(f, r[0], r[1], r[2])
			}
			f.Close()
			b, _ := os.ReadFile(p)
			var x, y, z int
			fmt.Sscanf(string(b), "%d %d %d", &x, &y, &z)
			e["shown"], e["drawn"] = rgb(c), []int{x, y, z}
		})
		t.Emit(e)
	}
}

func driveC26(t *T) {
	k := 0
	t.specLines(func(b []byte) {
		var h []sysOp
		if err := json.Unmarshal(b, &h); err != nil {
			panic(err)
		}
		t.Case("history enumerated by TLC", "")
		t.sysHistory(h, k)
		k++
	})
	for i := 0; i < t.Pick(40, 400); i++ {
		var h []sysOp
		for j := 4 + t.R.Intn(20); j > 0; j-- {
			switch t.R.Intn(7) {
			case 0:
				h = append(h, sysOp{Op: "refresh", S: t.R.Int63n(1000) - 500})
			case 1, 2:
				h = append(h, sysOp{Op: "draw", W: []interface{}{"intn", 1 + t.R.Intn([]int{10, 1000, 1 << 30}[t.R.Intn(3)])}})
				if t.R.Intn(5) == 0 { // more than an int32 holds, in steps of 2^20
					h[len(h)-1].W = []interface{}{"wide", 1 + t.R.Intn(1<<30)}
				}
			case 3:
				h = append(h, sysOp{Op: "draw", W: []interface{}{"float"}})
			case 4:
				h = append(h, sysOp{Op: "draw", W: []interface{}{"norm"}})
			case 5:
				h = append(h, sysOp{Op: "draw", W: []interface{}{"colour"}})
			case 6:
				u, v := 1+t.R.Intn(5), 1+t.R.Intn(5)
				if t.R.Intn(6) == 0 {
					u, v = 1+t.R.Intn(60), 1+t.R.Intn(60)
				}
				h = append(h, sysOp{Op: "draw", W: []interface{}{"comb", u, v, t.R.Intn(u*v + 1)}})
			}
		}
		t.Case("random history of draws", fmt.Sprint(h))
		t.sysHistory(h, k)
		h = nil
		for j := 4 + t.R.Intn(20); j > 0; j-- {
			switch t.R.Intn(4) {
			case 0:
				h = append(h, sysOp{Op: "verbose", B: t.R.Intn(3) > 0})
			case 1:
				h = append(h, sysOp{Op: "setlog", N: []string{"a", "b", "", "no/such"}[t.R.Intn(4)]})
			default:
				h = append(h, sysOp{Op: "print", K: []string{"f", "l"}[t.R.Intn(2)]})
			}
		}
		t.Case("random history of the log", fmt.Sprint(h))
		t.sysHistory(h, k)
		k++
	}
	for i := 0; i < t.Pick(20, 200); i++ {
		t.Case("concurrent draws", fmt.Sprint(i))
		t.shared(t.R.Int63n(100), 1+t.R.Intn(50))
	}
	t.colours()
}
