package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strconv"
	"strings"

	"github.com/RenatoGeh/gospn/io"
)

func init() {
	drivers["C23"] = driveC23
}

var npyInts = []string{
	"u1", "<u1", "|u1", "uint8",
	"u2", "<u2", ">u2", "uint16",
	"u4", "<u4", ">u4", "uint32",
	"u8", "<u8", ">u8", "uint64",
	"i1", "<i1", "|i1", ">i1", "int8",
	"i2", "<i2", ">i2", "int16",
	"i4", "<i4", ">i4", "int32",
	"i8", "<i8", ">i8", "int64",
}

// npyWidth gives the size in bytes and the signedness of a type.
func npyWidth(descr string) (int, bool) {
	s := strings.TrimLeft(descr, "<>|")
	switch s {
	case "u1", "uint8":
		return 1, false
	case "i1", "int8":
		return 1, true
	case "u2", "uint16":
		return 2, false
	case "i2", "int16":
		return 2, true
	case "u4", "uint32":
		return 4, false
	case "i4", "int32":
		return 4, true
	case "u8", "uint64":
		return 8, false
	}
	return 8, true
}

func npyFile(descr string, shape string, fortran bool, elems []int) []byte {
	w, _ := npyWidth(descr)
	f := "False"
	if fortran {
		f = "True"
	}
	hdr := fmt.Sprintf("{'descr': '%s', 'fortran_order': %s, 'shape': %s, }", descr, f, shape)
	for (10+len(hdr)+1)%16 != 0 {
		hdr += " "
	}
	hdr += "\n"
	var b bytes.Buffer
	b.WriteString("\x93NUMPY\x01\x00")
	binary.Write(&b, binary.LittleEndian, uint16(len(hdr)))
	b.WriteString(hdr)
	for _, v := range elems {
		u := uint64(int64(v))
		x := make([]byte, w)
		for k := 0; k < w; k++ {
			sh := uint(8 * k)
			if strings.HasPrefix(descr, ">") {
				sh = uint(8 * (w - 1 - k))
			}
			x[k] = byte(u >> sh)
		}
		b.Write(x)
	}
	return b.Bytes()
}

type npyRun struct {
	t    *T
	r    *io.NpyReader
	path string
	dead bool
	cut  bool
	big  bool // values are shown as strings: they do not fit TLC's integers
}

func (p *npyRun) inst(D []map[int]int) interface{} {
	if !p.big {
		return rowPairs(D)
	}
	out := [][][2]interface{}{}
	for _, r := range D {
		x := [][2]interface{}{}
		for _, kv := range Pairs(r) {
			x = append(x, [2]interface{}{kv[0], strconv.Itoa(kv[1])})
		}
		out = append(out, x)
	}
	return out
}

// open writes a matrix to a file and opens it.
func (t *T) npyOpen(rows [][]int, cols int, descr string, fortran, big, cut bool) *npyRun {
	p := &npyRun{t: t, path: filepath.Join(t.Dir, "m.npy"), big: big, cut: cut && len(rows) > 0}
	var el []int
	if fortran {
		for j := 0; j < cols; j++ {
			for i := range rows {
				el = append(el, rows[i][j])
			}
		}
	} else {
		for i := range rows {
			el = append(el, rows[i]...)
		}
	}
	b := npyFile(descr, fmt.Sprintf("(%d, %d)", len(rows), cols), fortran, el)
	if p.cut { // the file ends within a row: that row and the ones that follow are not there
		k := t.R.Intn(len(rows))
		w, _ := npyWidth(descr)
		b = b[:len(b)-(len(rows)-k)*cols*w+t.R.Intn(cols*w)]
		rows = rows[:k]
	}
	os.WriteFile(p.path, b, 0644)
	if rows == nil {
		rows = [][]int{}
	}
	p.opened(rows, 2, true, !fortran)
	return p
}

func (p *npyRun) opened(rows [][]int, ndim int, integer, rowmajor bool) {
	shown := [][]interface{}{}
	for _, r := range rows {
		x := []interface{}{}
		for j, v := range r {
			if p.big && j < len(r)-1 {
				x = append(x, strconv.Itoa(v))
			} else {
				x = append(x, v)
			}
		}
		shown = append(shown, x)
	}
	e := Ev{"op": "case", "rows": shown, "ndim": ndim, "integer": integer, "rowmajor": rowmajor, "cut": p.cut}
	e["err"] = Call(func() {
		r, err := io.NewNpyReader(p.path)
		e["ok"] = err == nil
		p.r = r
		p.dead = err != nil
	})
	if e["err"] != "" {
		p.dead = true
	}
	p.t.Emit(e)
}

func (p *npyRun) do(op string, n, c int) (ok bool) {
	if p.dead {
		return false
	}
	p.t.Case(op, "")
	e := Ev{"op": op, "n": n, "c": c, "cut": p.cut}
	err := Call(func() {
		if op == "reset" {
			err := p.r.Reset()
			e["ok"] = err == nil
			ok = err == nil
			return
		}
		var D []map[int]int
		var L []int
		var err error
		switch op {
		case "read":
			D, L, err = p.r.Read(n)
		case "all":
			D, L, err = p.r.ReadAll()
		case "balanced":
			D, L, err = p.r.ReadBalanced(n, c)
		}
		if err != nil {
			e["res"] = Ev{"ok": false, "rows": p.inst(D), "labs": append([]int{}, L...)}
			return
		}
		ok = true
		e["res"] = Ev{"ok": true, "rows": p.inst(D), "labs": append([]int{}, L...)}
	})
	e["err"] = err
	p.t.Emit(e)
	if err != "" {
		p.dead = true
		if Hung(err) {
			p.t.Finish()
			os.Exit(0)
		}
	}
	return ok && !p.dead
}

func (p *npyRun) close() {
	if p.r != nil {
		p.r.Close()
	}
	os.Remove(p.path)
}

func driveC23(t *T) {
	t.specLines(func(b []byte) {
		var x struct {
			Rows [][]int
			Hist [][]interface{}
		}
		if err := json.Unmarshal(b, &x); err != nil {
			panic(err)
		}
		t.Case("history enumerated by TLC", "")
		p := t.npyOpen(x.Rows, 2, npyInts[t.R.Intn(len(npyInts))], false, false, false)
		for _, h := range x.Hist {
			op, n, c := h[0].(string), int(h[1].(float64)), int(h[2].(float64))
			if !p.do(op, n, c) && !p.dead && t.R.Intn(3) > 0 {
				p.do("reset", 0, 0)
			}
		}
		p.close()
	})
	for i, n := 0, t.Pick(300, 3000); i < n; i++ {
		descr := npyInts[i%len(npyInts)]
		w, signed := npyWidth(descr)
		cols, nc := 1+t.R.Intn(6), 1+t.R.Intn(4)
		rows := make([][]int, t.R.Intn(14))
		switch t.R.Intn(25) {
		case 0: // long
			rows, nc = make([][]int, 50+t.R.Intn(300)), 1+t.R.Intn(11)
		case 1: // wide
			cols = 20 + t.R.Intn(200)
		}
		big := w >= 4 && t.R.Intn(3) == 0
		anyLabel := t.R.Intn(4) == 0 // then no balanced reads: the classes are not 0, 1, ...
		for a := range rows {
			rows[a] = make([]int, cols)
			for j := range rows[a] {
				bits := 8*w - 1
				if !signed {
					bits++
				}
				if bits > 30 && !big {
					bits = 30
				}
				if bits > 62 {
					bits = 62
				}
				v := int(t.R.Int63n(1 << uint(bits)))
				if t.R.Intn(2) == 0 {
					v = t.R.Intn(5)
				}
				if signed && t.R.Intn(4) == 0 {
					v = -v - 1
				}
				rows[a][j] = v
			}
			if !anyLabel {
				rows[a][cols-1] = t.R.Intn(nc)
			}
		}
		fortran := t.R.Intn(12) == 0
		p := t.npyOpen(rows, cols, descr, fortran, big, !fortran && t.R.Intn(10) == 0)
		for k := t.R.Intn(10); k >= 0; k-- {
			ok := true
			switch r := t.R.Intn(6); {
			case r < 2 || anyLabel && r > 2 && r < 5:
				ok = p.do("read", t.R.Intn(len(rows)+2), 0)
			case r == 2:
				ok = p.do("all", 0, 0)
			case r < 5:
				ok = p.do("balanced", t.R.Intn(len(rows)+2), nc+t.R.Intn(2))
			default:
				ok = p.do("reset", 0, 0)
			}
			if !ok && !p.dead && t.R.Intn(3) > 0 {
				p.do("reset", 0, 0)
			}
		}
		if (len(rows) > 20 || t.R.Intn(4) == 0) && p.do("reset", 0, 0) { // step by step to the end, and one further
			for left := len(rows); left > 0; {
				n := 1 + t.R.Intn(1+len(rows)/4)
				if n > left {
					n = left
				}
				if !p.do("read", n, 0) {
					break
				}
				left -= n
			}
			if p.do("read", 0, 0) && !p.do("read", 1+t.R.Intn(2), 0) && !anyLabel && p.do("reset", 0, 0) {
				for left := len(rows); left > 0 && p.do("balanced", 1+t.R.Intn(2*nc), nc); left-- {
				}
			}
		}
		p.close()
	}
	// what is no dataset of whole numbers is refused
	bad := func(descr, shape string, ndim int, integer bool, n int) {
		t.Case("refused", "")
		p := &npyRun{t: t, path: filepath.Join(t.Dir, "b.npy")}
		os.WriteFile(p.path, npyFile(descr, shape, false, make([]int, n)), 0644)
		p.opened([][]int{}, ndim, integer, true)
		p.close()
	}
	for _, d := range npyInts {
		bad(d, "(3,)", 1, true, 3)
		bad(d, "(2, 2, 1)", 3, true, 4)
	}
	for _, d := range []string{"<f4", "<f8", "f8", ">f4", "|b1", "<c8", "float64"} {
		bad(d, "(2, 2)", 2, false, 8)
	}
	t.Sample(Ev{"what": "matrices of all whole number types, read in pieces"})
}
