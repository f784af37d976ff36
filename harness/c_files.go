package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"github.com/RenatoGeh/gospn/io"
	"github.com/RenatoGeh/gospn/learn"
)

func init() {
	drivers["C20"] = driveC20
}

type token struct {
	N int    `json:"n"`
	S string `json:"s"`
}

type fileLine struct {
	K string   `json:"k"`
	V []int    `json:"v"`
	T []string `json:"t"`
	X []token  `json:"x"`
}

func (f fileLine) MarshalJSON() ([]byte, error) {
	m := map[string]interface{}{"k": f.K, "v": f.V, "t": f.T, "x": f.X}
	if f.V == nil {
		m["v"] = []int{}
	}
	if f.T == nil {
		m["t"] = []string{}
	}
	if f.X == nil {
		m["x"] = []token{}
	}
	return json.Marshal(m)
}

type textFile struct {
	t     *T
	path  string
	lines []fileLine
	long  bool // one row with a very long run of blanks
	arff  bool
	plain bool // canonical layout only
}

var fileNo int

// write renders the lines in one of the layouts that mean the same.
func (f *textFile) write() {
	t := f.t
	fileNo++
	f.path = filepath.Join(t.Dir, fmt.Sprintf("f%d.txt", fileNo))
	nl := "\n"
	if !f.plain && t.R.Intn(6) == 0 {
		nl = "\r\n"
	}
	sep := func() string {
		if f.plain {
			return ","
		}
		if f.arff {
			return []string{",", ",", ", ", " "}[t.R.Intn(4)]
		}
		return []string{" ", ",", ", ", "  ", "\t", " , "}[t.R.Intn(6)]
	}
	var b strings.Builder
	long := f.long
	for i, ln := range f.lines {
		switch ln.K {
		case "blank":
			if !f.arff {
				b.WriteString([]string{"", "", " ", "\t"}[t.R.Intn(4)])
			}
		case "comment":
			b.WriteString("% a comment, with @data in it")
		case "var":
			fmt.Fprintf(&b, "var %d %d", ln.V[0], ln.V[1])
		case "labels":
			fmt.Fprintf(&b, "labels %d", len(ln.V))
			for _, v := range ln.V {
				fmt.Fprintf(&b, " %d", v)
			}
		case "row":
			if t.R.Intn(8) == 0 {
				b.WriteString(" ")
			}
			s := sep()
			for j, v := range ln.V {
				if j > 0 {
					if t.R.Intn(3) == 0 {
						s = sep()
					}
					if long {
						b.WriteString(strings.Repeat(" ", 70000))
						long = false
					}
					b.WriteString(s)
				}
				b.WriteString(strconv.Itoa(v))
			}
			if t.R.Intn(3) == 0 {
				b.WriteString(" ")
			}
		case "relation":
			fmt.Fprintf(&b, "%s %s", f.word("@relation"), ln.T[0])
		case "attr":
			if len(ln.T) > 2 || ln.T[1] == "class" {
				s := []string{",", ", "}[t.R.Intn(2)]
				if f.plain {
					s = ","
				}
				fmt.Fprintf(&b, "%s %s {%s}", f.word("@attribute"), ln.T[0], strings.Join(ln.T[2:], s))
			} else {
				fmt.Fprintf(&b, "%s %s %s", f.word("@attribute"), ln.T[0], f.word(ln.T[1]))
			}
		case "data":
			b.WriteString(f.word("@data"))
		case "tokens":
			for j, x := range ln.X {
				if j > 0 {
					b.WriteString(sep())
					if long {
						b.WriteString(strings.Repeat(" ", 70000))
						long = false
					}
				}
				b.WriteString(x.S)
			}
		}
		if i < len(f.lines)-1 || t.R.Intn(4) > 0 {
			b.WriteString(nl)
		}
	}
	if err := os.WriteFile(f.path, []byte(b.String()), 0644); err != nil {
		panic(err)
	}
	t.Emit(Ev{"op": "case", "lines": f.lines})
}

func (f *textFile) word(s string) string {
	if f.plain {
		return s
	}
	switch f.t.R.Intn(3) {
	case 0:
		return strings.ToUpper(s)
	case 1:
		return strings.ToUpper(s[:2]) + s[2:]
	}
	return s
}

func varPairs(sc map[int]*learn.Variable) [][2]int {
	out := [][2]int{}
	ids := []int{}
	for k := range sc {
		ids = append(ids, k)
	}
	sort.Ints(ids)
	for _, k := range ids {
		id := sc[k].Varid
		if id != k {
			id = -1 // filed under another number
		}
		out = append(out, [2]int{id, sc[k].Categories})
	}
	return out
}

func rowPairs(D []map[int]int) [][][2]int {
	out := [][][2]int{}
	for _, r := range D {
		out = append(out, Pairs(r))
	}
	return out
}

func (f *textFile) op(op string, g func(e Ev)) bool {
	t := f.t
	t.Case(op, "")
	before, _ := os.ReadFile(f.path)
	e := Ev{"op": op}
	err := Call(func() { g(e) })
	after, _ := os.ReadFile(f.path)
	e["kept"] = string(before) == string(after)
	e["err"] = err
	t.Emit(e)
	return err == ""
}

func (f *textFile) data() bool {
	return f.op("data", func(e Ev) {
		sc, D := io.ParseData(f.path)
		e["res"] = map[string]interface{}{"vars": varPairs(sc), "rows": rowPairs(D), "labs": []int{}}
	})
}

func (f *textFile) dataNL() bool {
	return f.op("datanl", func(e Ev) {
		sc, D, L := io.ParseDataNL(f.path)
		e["res"] = map[string]interface{}{"vars": varPairs(sc), "rows": rowPairs(D), "labs": append([]int{}, L...)}
	})
}

func (f *textFile) evidence() bool {
	return f.op("evidence", func(e Ev) {
		sc, D, L := io.ParseEvidence(f.path)
		e["res"] = map[string]interface{}{"vars": varPairs(sc), "rows": rowPairs(D), "labs": append([]int{}, L...)}
	})
}

func (f *textFile) split(p, q int, seed int64) bool {
	return f.op("split", func(e Ev) {
		e["p"], e["q"], e["seed"] = p, q, seed
		sc, train, test, L := io.ParsePartitionedData(f.path, float64(p)/float64(q), seed)
		e["res"] = map[string]interface{}{"vars": varPairs(sc), "train": rowPairs(train), "test": rowPairs(test), "labs": append([]int{}, L...)}
	})
}

func (f *textFile) parseArff() bool {
	return f.op("arff", func(e Ev) {
		name, sc, D, L := io.ParseArff(f.path)
		vars := []Ev{}
		dicts := [][]string{}
		for i := 0; i < len(sc); i++ {
			v := sc[i]
			if v == nil {
				v = &learn.Variable{Varid: -1}
			}
			vars = append(vars, Ev{"id": v.Varid, "cats": v.Categories, "name": v.Name})
			d := make([]string, len(L[i]))
			for s, k := range L[i] {
				if k < 0 || k >= len(d) || d[k] != "" {
					d = append(d, s+" has number "+strconv.Itoa(k))
				} else {
					d[k] = s
				}
			}
			dicts = append(dicts, d)
		}
		e["res"] = map[string]interface{}{"name": name, "vars": vars, "rows": rowPairs(D), "dicts": dicts}
	})
}

func (f *textFile) convert() bool {
	return f.op("convert", func(e Ev) {
		dir, base := filepath.Split(f.path)
		io.ARFFToData(filepath.Clean(dir), base, base+".data")
		out, err := os.ReadFile(filepath.Join(dir, "compiled", base+".data"))
		if err != nil {
			panic(err)
		}
		vars, rows := rawData(string(out))
		e["res"] = map[string]interface{}{"vars": vars, "rows": rows}
		os.Remove(filepath.Join(dir, "compiled", base+".data"))
	})
}

// rawData reads a .data file literally.
func rawData(s string) (vars [][]int, rows [][]int) {
	vars, rows = [][]int{}, [][]int{}
	for _, ln := range strings.Split(s, "\n") {
		fs := strings.Fields(strings.Replace(ln, ",", " ", -1))
		if len(fs) == 0 {
			continue
		}
		isVar := fs[0] == "var"
		if isVar {
			fs = fs[1:]
		}
		row := []int{}
		for _, x := range fs {
			v, err := strconv.Atoi(x)
			if err != nil {
				v = -999
			}
			row = append(row, v)
		}
		if isVar {
			vars = append(vars, row)
		} else {
			rows = append(rows, row)
		}
	}
	return
}

func (f *textFile) done() { os.Remove(f.path) }

func (t *T) randomData(evidence bool) *textFile {
	return t.tableOf(0, 0, evidence)
}

// tableOf gives a random file with as many variables and rows as asked for, or any number of them.
func (t *T) tableOf(vars, rows int, evidence bool) *textFile {
	f := &textFile{t: t}
	n := 1 + t.R.Intn(6)
	m := t.R.Intn(12)
	classes := 1 + t.R.Intn(4)
	most := 12
	switch t.R.Intn(40) {
	case 0: // a wide table
		n, m = 20+t.R.Intn(100), t.R.Intn(20)
	case 1: // a long one
		n, m = 1+t.R.Intn(4), 50+t.R.Intn(300)
	case 2, 3, 4: // numbers of many digits
		most = []int{100, 300, 70000, 1 << 30}[t.R.Intn(4)]
	case 5:
		classes = 5 + t.R.Intn(60)
	}
	if rows > 0 {
		n, m = vars, rows
	}
	if evidence {
		ln := fileLine{K: "labels"}
		for i, s := 0, 0; i < classes; i++ {
			ln.V = append(ln.V, s)
			s += t.R.Intn(30)
		}
		f.lines = append(f.lines, ln)
	}
	blank := func() {
		for t.R.Intn(8) == 0 {
			f.lines = append(f.lines, fileLine{K: "blank"})
		}
	}
	cats := []int{}
	for i := 0; i < n; i++ {
		blank()
		c := 1 + t.R.Intn(most)
		cats = append(cats, c)
		f.lines = append(f.lines, fileLine{K: "var", V: []int{i, c}})
	}
	extra := 0
	if t.R.Intn(4) == 0 {
		extra = 1 + t.R.Intn(2)
	}
	for i := 0; i < m; i++ {
		blank()
		ln := fileLine{K: "row"}
		for j := 0; j < n; j++ {
			ln.V = append(ln.V, t.R.Intn(cats[j]))
		}
		for j := 0; j < extra; j++ {
			ln.V = append(ln.V, t.R.Intn(9))
		}
		f.lines = append(f.lines, ln)
	}
	blank()
	f.long = m > 0 && n > 1 && t.R.Intn(10) == 0
	return f
}

// numbered gives a file whose first variable numbers the rows and whose last one is a label.
func (t *T) numbered(m int) *textFile {
	f := &textFile{t: t}
	n := 2 + t.R.Intn(3)
	for i := 0; i < n; i++ {
		f.lines = append(f.lines, fileLine{K: "var", V: []int{i, 2 + m*t.R.Intn(2)}})
	}
	for i := 0; i < m; i++ {
		ln := fileLine{K: "row", V: []int{i}}
		for j := 1; j < n; j++ {
			ln.V = append(ln.V, t.R.Intn(4))
		}
		f.lines = append(f.lines, ln)
	}
	return f
}

func (t *T) randomArff(classesOnly bool) *textFile {
	f := &textFile{t: t, arff: true, plain: classesOnly}
	add := func(l fileLine) { f.lines = append(f.lines, l) }
	noise := func() {
		if classesOnly {
			return
		}
		for t.R.Intn(7) == 0 {
			add(fileLine{K: []string{"blank", "comment"}[t.R.Intn(2)]})
		}
	}
	noise()
	add(fileLine{K: "relation", T: []string{"Rel" + strconv.Itoa(t.R.Intn(9))}})
	n, rows, most := 1+t.R.Intn(5), t.R.Intn(9), 4
	pool := []string{"a", "B", "true", "False", "x1", "0", "12", "Wet", "wet", "very_high", "-1", "2.5", "a-b", "50%", "_b_", "@data", "#1"}
	switch t.R.Intn(30) {
	case 0:
		n, rows = 10+t.R.Intn(40), t.R.Intn(15)
	case 1:
		n, rows = 1+t.R.Intn(3), 20+t.R.Intn(100)
	case 2: // many labels
		for i := 0; i < 60; i++ {
			pool = append(pool, "label"+strconv.Itoa(i))
		}
		rows, most = rows+30, 40
		if t.R.Intn(3) == 0 {
			for i := 60; i < 400; i++ {
				pool = append(pool, "label"+strconv.Itoa(i))
			}
			n, rows, most = 1, 500, len(pool)
		}
	}
	kinds := make([]string, n)
	words := make([][]string, n)
	for i := 0; i < n; i++ {
		noise()
		kinds[i] = []string{"numeric", "string", "class"}[t.R.Intn(3)]
		if classesOnly {
			kinds[i] = "class"
		}
		t.R.Shuffle(len(pool), func(a, b int) { pool[a], pool[b] = pool[b], pool[a] })
		words[i] = append([]string{}, pool[:1+t.R.Intn(most)]...)
		ln := fileLine{K: "attr", T: []string{[]string{"At", "_at", "Numeric", "50%", "@x-"}[t.R.Intn(5)] + strconv.Itoa(i) + []string{"", "_", "."}[t.R.Intn(3)], kinds[i]}}
		if kinds[i] == "class" {
			ln.T = append(ln.T, words[i]...)
			if !classesOnly && t.R.Intn(4) == 0 { // an undeclared label in the data
				words[i] = append(append([]string{}, words[i]...), "?")
			}
		}
		add(ln)
	}
	noise()
	add(fileLine{K: "data"})
	for i := 0; i < rows; i++ {
		noise()
		ln := fileLine{K: "tokens"}
		for j := 0; j < n; j++ {
			if kinds[j] == "numeric" {
				v := t.R.Intn(5)
				if t.R.Intn(6) == 0 {
					v = t.R.Intn([]int{300, 300, 70000, 1 << 30}[t.R.Intn(4)])
				}
				ln.X = append(ln.X, token{v, strconv.Itoa(v)})
			} else {
				ln.X = append(ln.X, token{0, words[j][t.R.Intn(len(words[j]))]})
			}
		}
		add(ln)
	}
	noise()
	f.long = !classesOnly && n > 1 && t.R.Intn(12) == 0
	return f
}

func driveC20(t *T) {
	t.specLines(func(b []byte) {
		var x struct{ Lines []fileLine }
		if err := json.Unmarshal(b, &x); err != nil {
			panic(err)
		}
		t.Case("file enumerated by TLC", "")
		f := &textFile{t: t, lines: x.Lines}
		f.write()
		f.data()
		f.dataNL()
		f.done()
	})
	for i, n := 0, t.Pick(400, 4000); i < n; i++ {
		f := t.randomData(false)
		f.write()
		f.data()
		f.dataNL()
		f.done()
		f = t.randomData(true)
		f.write()
		f.evidence()
		f.done()
		f = t.randomArff(false)
		f.write()
		f.parseArff()
		f.done()
		if i%3 == 0 {
			f = t.randomArff(true)
			f.write()
			f.convert()
			f.parseArff()
			f.done()
		}
	}
	for i, n := 0, t.Pick(1, 6); i < n; i++ { // long tables
		f := t.tableOf(1+t.R.Intn(3), 1030+t.R.Intn(900), false)
		f.write()
		f.data()
		f.dataNL()
		f.done()
		f = t.tableOf(1+t.R.Intn(3), 1030+t.R.Intn(900), true)
		f.write()
		f.evidence()
		f.done()
	}
	// partitions: a few seeds over a few files, so that the same history of a seed recurs
	sizes := []int{1, 2, 3, 5, 8, 10, 20, 33, 64, 100, 257, 400}
	for i, n := 0, t.Pick(150, 1500); i < n; i++ {
		f := t.numbered(sizes[t.R.Intn(len(sizes))])
		f.write()
		seed := int64(t.R.Intn(3)) - 1
		for k := 0; k < 1+t.R.Intn(4); k++ {
			if t.R.Intn(3) == 0 {
				seed = int64(t.R.Intn(4)) - 1
			}
			if t.R.Intn(8) == 0 {
				seed = 1<<29 + int64(t.R.Intn(2))
			}
			q := []int{1, 2, 3, 4, 7, 8, 10, 100}[t.R.Intn(8)]
			f.split(t.R.Intn(q+1), q, seed)
		}
		f.done()
	}
	if len(t.samples) == 0 {
		t.Sample(Ev{"what": "data, evidence and ARFF files"})
	}
}
