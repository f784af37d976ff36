package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strconv"
	"strings"

	"github.com/RenatoGeh/gospn/io"
	"github.com/RenatoGeh/gospn/spn"
)

func init() {
	drivers["C24"] = driveC24
}

// netpbm reads a plain (ASCII) netpbm file as its format prescribes.
func netpbm(path string) Ev {
	b, err := os.ReadFile(path)
	if err != nil {
		panic(err)
	}
	fs := strings.Fields(string(b))
	e := Ev{"magic": "", "w": -1, "h": -1, "max": 1, "s": []int{}}
	num := func(x string) int {
		v, err := strconv.Atoi(x)
		if err != nil {
			return -1
		}
		return v
	}
	if len(fs) < 3 {
		return e
	}
	e["magic"], e["w"], e["h"] = fs[0], num(fs[1]), num(fs[2])
	s := []int{}
	if fs[0] == "P1" { // bits need no blanks
		for _, c := range strings.Join(fs[3:], "") {
			s = append(s, num(string(c)))
		}
	} else {
		if len(fs) < 4 {
			return e
		}
		e["max"] = num(fs[3])
		for _, x := range fs[4:] {
			s = append(s, num(x))
		}
	}
	e["s"] = s
	return e
}

type drawing struct {
	t         *T
	im        []int
	known     map[int]bool
	w, h, max int
	typ       io.CmplType
}

func (d *drawing) op(op string, f func(e Ev, path string, all, orig, cmpl spn.VarSet)) {
	t := d.t
	t.Case(op, "")
	all, orig, cmpl := spn.VarSet{}, spn.VarSet{}, spn.VarSet{}
	for i, v := range d.im {
		all[i] = v
		if d.known[i] {
			orig[i] = v
		} else {
			cmpl[i] = v
		}
	}
	show := func() string { return fmt.Sprint(Pairs(all), Pairs(orig), Pairs(cmpl)) }
	before := show()
	path := filepath.Join(t.Dir, "out.img")
	os.WriteFile(path, []byte(strings.Repeat("P9 leftovers\n", t.R.Intn(400))), 0644) // overwritten
	e := Ev{"op": op}
	e["err"] = Call(func() { f(e, path, all, orig, cmpl) })
	e["kept"] = before == show()
	os.Remove(path)
	t.Emit(e)
}

func (t *T) draw(w, h int, typ io.CmplType, bits bool) {
	d := &drawing{t: t, w: w, h: h, typ: typ, max: 2, known: map[int]bool{}, im: make([]int, w*h)}
	if !bits {
		d.max = []int{2, 4, 8, 17, 256, 1000, 65536}[t.R.Intn(7)]
	}
	known := []int{}
	way := t.R.Intn(3)
	for i := range d.im {
		d.im[i] = t.R.Intn(d.max)
		k := false
		switch way {
		case 0:
			k = t.R.Intn(2) == 0
		case 1: // the other half is known
			switch typ {
			case io.Top:
				k = i >= w*(h/2)
			case io.Bottom:
				k = i < w*(h/2)
			case io.Left:
				k = i%w >= w/2
			default:
				k = i%w < w/2
			}
		case 2:
			k = t.R.Intn(5) == 0
		}
		if k {
			d.known[i] = true
			known = append(known, i)
		}
	}
	t.Emit(Ev{"op": "case", "im": d.im, "known": known, "w": w, "h": h, "typ": string(typ), "max": d.max})
	if bits {
		d.op("pbm", func(e Ev, p string, all, orig, cmpl spn.VarSet) { io.VarSetToPBM(p, all, w, h); e["f"] = netpbm(p) })
		d.op("cmplppm", func(e Ev, p string, all, orig, cmpl spn.VarSet) {
			io.ImgCmplToPPM(p, orig, cmpl, typ, w, h)
			e["f"] = netpbm(p)
		})
	} else {
		d.op("pgm", func(e Ev, p string, all, orig, cmpl spn.VarSet) {
			io.VarSetToPGM(p, all, w, h, d.max-1)
			e["f"] = netpbm(p)
		})
		d.op("ppm", func(e Ev, p string, all, orig, cmpl spn.VarSet) {
			io.VarSetToPPM(p, all, w, h, d.max-1)
			e["f"] = netpbm(p)
		})
		d.op("cmplpgm", func(e Ev, p string, all, orig, cmpl spn.VarSet) {
			io.ImgCmplToPGM(p, orig, cmpl, typ, w, h, d.max)
			e["f"] = netpbm(p)
		})
	}
	d.op("half", func(e Ev, p string, all, orig, cmpl spn.VarSet) {
		P, Q := io.SplitHalf(all, typ, w, h)
		e["p"], e["q"] = Pairs(P), Pairs(Q)
		P[0], Q[w*h-1] = 77, 77 // the halves are the caller's
	})
}

func driveC24(t *T) {
	t.specLines(func(b []byte) {
		var x struct {
			W, H int
			Typ  string
		}
		if err := json.Unmarshal(b, &x); err != nil {
			panic(err)
		}
		t.Case("size enumerated by TLC", fmt.Sprint(x))
		for i := 0; i < 3; i++ {
			t.draw(x.W, x.H, io.CmplType(x.Typ), i == 0)
		}
	})
	for i, n := 0, t.Pick(60, 1500); i < n; i++ {
		w, h := 1+t.R.Intn(12), 1+t.R.Intn(12)
		if i%12 == 0 {
			w, h = 1+t.R.Intn(60), 1+t.R.Intn(60)
		}
		if i%30 == 5 {
			w, h = 60+t.R.Intn(60), 60+t.R.Intn(60)
		}
		if i%20 < 2 { // wide or high ones
			w, h = 60+t.R.Intn(300), 1+t.R.Intn(8)
			if t.R.Intn(2) == 0 {
				w, h = h, w
			}
		}
		t.draw(w, h, io.Orientations[t.R.Intn(4)], i%2 == 0)
	}
	t.Sample(Ev{"what": "images and completions in all orientations"})
}
