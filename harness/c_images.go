package main

import (
	"encoding/json"
	"fmt"
	"io/fs"
	"os"
	"path/filepath"
	"strconv"
	"strings"

	"github.com/RenatoGeh/gospn/io"
)

func init() {
	drivers["C21"] = driveC21
}

// imageSet is a tree of class folders full of images.
type imageSet struct {
	t         *T
	dir       string
	folders   [][][]int
	w, h, max int
	pbm       bool
}

var imageNo int

func (t *T) imageSet(sizes []int, pbm bool) *imageSet {
	s := &imageSet{t: t, pbm: pbm, folders: [][][]int{}, w: 1 + t.R.Intn(4), h: 1 + t.R.Intn(4), max: 1}
	total := sumInts(sizes)
	switch {
	case total > 100: // many images, small ones
	case total > 20 && t.R.Intn(3) == 0:
		s.w, s.h = 30+t.R.Intn(12), 30+t.R.Intn(12)
	case t.R.Intn(12) == 0:
		s.w, s.h = 1+t.R.Intn(24), 1+t.R.Intn(24)
	}
	if !pbm {
		s.max = []int{1, 3, 7, 15, 255, 1023, 65535}[t.R.Intn(7)]
	}
	for _, k := range sizes {
		f := [][]int{}
		for i := 0; i < k; i++ {
			im := make([]int, s.w*s.h)
			for p := range im {
				im[p] = t.R.Intn(s.max + 1)
			}
			f = append(f, im)
		}
		s.folders = append(s.folders, f)
	}
	return s
}

func (s *imageSet) image(path string, im []int) {
	t := s.t
	var b strings.Builder
	nl := "\n"
	if t.R.Intn(8) == 0 {
		nl = "\r\n"
	}
	if s.pbm {
		fmt.Fprintf(&b, "P1%s%d %d%s", nl, s.w, s.h, nl)
	} else {
		fmt.Fprintf(&b, "P2%s%d %d%s%d%s", nl, s.w, s.h, nl, s.max, nl)
	}
	style := t.R.Intn(4)
	for i, p := range im {
		if i > 0 {
			switch {
			case style == 0 && i%s.w == 0: // one row of pixels per line
				b.WriteString(nl)
			case style == 1 && i%s.w == 0: // the same, with a blank at the end
				b.WriteString(" " + nl)
			case style == 2 && t.R.Intn(3) == 0:
				b.WriteString(nl)
			case s.pbm && style != 3: // bits need no blanks between them
			case !s.pbm && t.R.Intn(8) == 0:
				b.WriteString("  ")
			case !s.pbm && t.R.Intn(16) == 0:
				b.WriteString("\t")
			default:
				b.WriteString(" ")
			}
		}
		b.WriteString(strconv.Itoa(p))
	}
	if t.R.Intn(3) == 0 {
		b.WriteString(" ")
	}
	if t.R.Intn(3) > 0 {
		b.WriteString(nl)
	}
	if err := os.WriteFile(path, []byte(b.String()), 0644); err != nil {
		panic(err)
	}
}

// write creates the folders under names whose order on disk is whatever it is.
func (s *imageSet) write(flat bool) {
	t := s.t
	imageNo++
	s.dir = filepath.Join(t.Dir, fmt.Sprintf("img%d", imageNo))
	os.MkdirAll(s.dir, 0755)
	if flat {
		for i, im := range s.folders[0] {
			s.image(filepath.Join(s.dir, fmt.Sprintf("i%d_%d.pbm", t.R.Intn(1000), i)), im)
		}
	} else {
		stem := []string{"c", "c", "class ", "compiled", "Compiled", "0", "ab.pgm"}[t.R.Intn(7)]
		for i, f := range s.folders {
			d := filepath.Join(s.dir, fmt.Sprintf("%s%d_%d", stem, t.R.Intn(1000), i))
			os.MkdirAll(d, 0755)
			for j, im := range f {
				s.image(filepath.Join(d, fmt.Sprintf("i%d_%d", t.R.Intn(1000), j)), im)
			}
		}
		beside := t.R.Intn(4)
		if t.R.Intn(4) == 0 {
			beside = 4 + t.R.Intn(9)
		}
		for i := 0; i < beside; i++ { // files beside the folders are no images
			os.WriteFile(filepath.Join(s.dir, fmt.Sprintf("%c%d", 'a'+rune(t.R.Intn(26)), i)), []byte("P1\n9 9\n"), 0644)
		}
		if t.R.Intn(2) == 0 {
			os.MkdirAll(filepath.Join(s.dir, "compiled"), 0755)
			os.WriteFile(filepath.Join(s.dir, "compiled", "old.data"), []byte("var 0 2\n1\n"), 0644)
		}
	}
	t.Emit(Ev{"op": "case", "folders": s.folders, "w": s.w, "h": s.h, "max": s.max})
}

func (s *imageSet) contents() string {
	var b strings.Builder
	filepath.WalkDir(s.dir, func(p string, d fs.DirEntry, err error) error {
		if err == nil && !d.IsDir() && !strings.HasSuffix(p, ".out") {
			c, _ := os.ReadFile(p)
			fmt.Fprintf(&b, "%s:%d:%s;", p, len(c), c)
		}
		return nil
	})
	return b.String()
}

func (s *imageSet) op(op, how string, f func(e Ev) string) {
	t := s.t
	t.Case(how, "")
	before := s.contents()
	e := Ev{"op": op, "how": how}
	e["err"] = Call(func() {
		path := f(e)
		out, err := os.ReadFile(path)
		if err != nil {
			panic(err)
		}
		text := string(out)
		if strings.HasPrefix(text, "labels ") {
			line, rest, _ := strings.Cut(text, "\n")
			text = rest
			starts := []int{}
			fs := strings.Fields(line)
			for _, x := range fs[2:] {
				v, err := strconv.Atoi(x)
				if err != nil {
					v = -1
				}
				starts = append(starts, v)
			}
			if fs[1] != strconv.Itoa(len(starts)) {
				starts = append(starts, -2)
			}
			e["starts"] = starts
		}
		vars, rows := rawData(text)
		e["vars"], e["rows"] = vars, rows
		if nl := strings.Count(text, "\n"); nl != len(vars)+len(rows) { // a row is a line
			e["rows"] = append(rows, []int{-3})
		}
		os.Remove(path)
	})
	e["kept"] = before == s.contents()
	t.Emit(e)
}

func (s *imageSet) convert() {
	name := func() string { return fmt.Sprintf("d%d.out", s.t.R.Intn(5)) }
	comp := func(n string) string { return filepath.Join(s.dir, "compiled", n) }
	if s.pbm {
		s.op("pbm", "PBMFToData", func(e Ev) string { n := name(); io.PBMFToData(s.dir, n); return comp(n) })
		s.op("pbmev", "PBMFToEvidence", func(e Ev) string { n := name(); io.PBMFToEvidence(s.dir, n); return comp(n) })
		return
	}
	s.op("pgm", "PGMFToData", func(e Ev) string {
		n := name()
		a, b, c := io.PGMFToData(s.dir, n)
		e["ret"] = []int{a, b, c}
		return comp(n)
	})
	for i := 0; i < 2; i++ {
		s.op("pgm", "BufferedPGMFToData", func(e Ev) string {
			n := name()
			a, b, c := io.BufferedPGMFToData(s.dir, n)
			e["ret"] = []int{a, b, c}
			return comp(n)
		})
	}
	s.op("pgmev", "PGMFToEvidence", func(e Ev) string {
		n := name()
		a, b, c := io.PGMFToEvidence(s.dir, n)
		e["ret"] = []int{a, b, c}
		return comp(n)
	})
}

// empty converts folders without images onto a file that exists: whatever happens, it is left alone.
func (t *T) emptySet(k int) {
	s := t.imageSet(make([]int, t.R.Intn(3)), k%2 == 0)
	s.write(false)
	os.MkdirAll(filepath.Join(s.dir, "compiled"), 0755)
	os.WriteFile(filepath.Join(s.dir, "compiled", "old.data"), []byte("var 0 2\n1\n"), 0644)
	for i := 0; i < 6; i++ {
		before := s.contents()
		e := Ev{"op": "empty", "err": ""}
		err := Call(func() {
			switch i {
			case 0:
				io.PBMFToData(s.dir, "old.data")
			case 1:
				io.PBMFToEvidence(s.dir, "old.data")
			case 2:
				io.PGMFToData(s.dir, "old.data")
			case 3:
				io.BufferedPGMFToData(s.dir, "old.data")
			case 4:
				io.PGMFToEvidence(s.dir, "old.data")
			case 5:
				d := filepath.Join(s.dir, "flat")
				os.MkdirAll(d, 0755)
				io.PBMToData(d, filepath.Join(s.dir, "compiled", "old.data"), 0)
			}
		})
		if Hung(err) {
			e["err"] = err
		}
		e["failed"], e["kept"] = err != "", before == s.contents()
		t.Case("nothing to convert", "")
		t.Emit(e)
	}
	s.done()
}

func (s *imageSet) done() { os.RemoveAll(s.dir) }

func driveC21(t *T) {
	run := func(sizes []int, pbm bool) {
		s := t.imageSet(sizes, pbm)
		s.write(false)
		s.convert()
		s.done()
	}
	t.specLines(func(b []byte) {
		var x struct{ Folders []int }
		if err := json.Unmarshal(b, &x); err != nil {
			panic(err)
		}
		t.Case("layout enumerated by TLC", fmt.Sprint(x.Folders))
		run(x.Folders, true)
		run(x.Folders, false)
	})
	for i, n := 0, t.Pick(150, 1500); i < n; i++ {
		sizes := make([]int, 1+t.R.Intn(4))
		if t.R.Intn(8) == 0 {
			sizes = make([]int, 5+t.R.Intn(20))
		}
		total := 0
		for k := range sizes {
			sizes[k] = t.R.Intn(6)
			total += sizes[k]
		}
		if i%5 == 0 { // more files than processors
			sizes[0] = 20 + t.R.Intn(20)
			if i%25 == 0 {
				sizes[0] = 100 + t.R.Intn(250)
			}
			total++
		}
		if total == 0 {
			sizes[0] = 1
		}
		run(sizes, i%2 == 0)
		nf := 1 + t.R.Intn(5)
		if i%40 == 7 {
			nf = 100 + t.R.Intn(200)
		}
		s := t.imageSet([]int{nf}, true)
		s.write(true)
		class := t.R.Intn(3)
		if i%5 == 0 {
			class = t.R.Intn(3000)
		}
		s.op("flat", "PBMToData", func(e Ev) string {
			e["class"] = class
			p := filepath.Join(t.Dir, "flat.out")
			io.PBMToData(s.dir, p, class)
			return p
		})
		s.done()
	}
	for i := 0; i < t.Pick(4, 20); i++ {
		t.emptySet(i)
	}
	t.Sample(Ev{"what": "class folders of PBM and PGM images"})
}
