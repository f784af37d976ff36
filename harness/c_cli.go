package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io/fs"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"time"
)

func init() { drivers["C30"] = driveC30 }

// cliArgs are the arguments of a run as the specification knows them.
type cliArgs struct {
	Mode  string `json:"mode"`
	DS    string `json:"ds"`
	P     int    `json:"p"`
	Q     int    `json:"q"`
	Iters int    `json:"iters"`
	W     int    `json:"w"`
	H     int    `json:"h"`
	Max   int    `json:"max"`
	// as given to the learner, when given
	Clusters string `json:"clusters"`
	Eps      string `json:"eps"`
	Mp       string `json:"mp"`
	Pval     string `json:"pval"`
}

// project is a directory the program is run in.
type project struct {
	t    *T
	bin  string
	dir  string
	src  *imageSet
	size map[string][3]int // w, h, max (greatest pixel) of each dataset
}

func (p *project) compiled() []Ev {
	out := []Ev{}
	fs, _ := filepath.Glob(filepath.Join(p.dir, "data", "*", "compiled", "all.data"))
	for _, f := range fs {
		b, _ := os.ReadFile(f)
		vars, rows := rawData(string(b))
		out = append(out, Ev{"ds": filepath.Base(filepath.Dir(filepath.Dir(f))), "c": Ev{"vars": vars, "rows": rows}})
	}
	return out
}

var picture = regexp.MustCompile(`^cmpl_(\d+)-([A-Z]+)\.pgm$`)

func (p *project) pictures() (names [][2]interface{}) {
	names = [][2]interface{}{}
	fs, _ := os.ReadDir(p.dir)
	for _, f := range fs {
		if m := picture.FindStringSubmatch(f.Name()); m != nil {
			k, _ := strconv.Atoi(m[1])
			names = append(names, [2]interface{}{k, m[2]})
		}
	}
	return
}

// others is everything but compiled data and pictures.
func (p *project) others() string {
	var b strings.Builder
	filepath.WalkDir(p.dir, func(f string, d fs.DirEntry, err error) error {
		if err != nil || d.IsDir() || picture.MatchString(d.Name()) || strings.HasSuffix(f, "compiled/all.data") {
			return nil
		}
		c, _ := os.ReadFile(f)
		fmt.Fprintf(&b, "%s:%d:%s;", f, len(c), c)
		return nil
	})
	return b.String()
}

func (t *T) newProject(bin string, k int) *project {
	p := &project{t: t, bin: bin, dir: filepath.Join(t.Dir, fmt.Sprintf("cli%d", k)), size: map[string][3]int{}}
	src := []Ev{}
	for _, ds := range []string{"a", "b"} {
		s := t.imageSet([]int{3 + t.R.Intn(2), 3 + t.R.Intn(2)}[:2], false)
		if s.w*s.h > 9 {
			s.w, s.h = 2, 2
		}
		if s.max > 7 {
			s.max = 7
		}
		s = t.sized(s)
		p.size[ds] = [3]int{s.w, s.h, s.max}
		d := filepath.Join(p.dir, "data", ds)
		if ds == "a" {
			p.images(d, s)
			src = append(src, Ev{"ds": ds, "c": Ev{"folders": s.folders, "w": s.w, "h": s.h, "max": s.max}})
			continue
		}
		os.MkdirAll(filepath.Join(d, "compiled"), 0755)
		var rows [][]int
		for i, f := range s.folders {
			for _, im := range f {
				rows = append(rows, append(append([]int{}, im...), i))
			}
		}
		t.R.Shuffle(len(rows), func(i, j int) { rows[i], rows[j] = rows[j], rows[i] })
		cards := make([]int, s.w*s.h+1)
		for i := range cards {
			cards[i] = s.max + 1
		}
		cards[s.w*s.h] = 2
		dataFile(filepath.Join(d, "compiled", "all.data"), rows, cards)
	}
	p.negatives()
	os.WriteFile(filepath.Join(p.dir, "notes.pgm"), []byte("mine"), 0644)
	p.size["c"] = [3]int{1, 1, 1}
	t.Emit(Ev{"op": "case", "src": src, "comp": p.compiled()})
	return p
}

// negatives writes the datasets "m" and "s", copies of an image and of its negative.
func (p *project) negatives() {
	t := p.t
	w, h := 2+t.R.Intn(2), 2
	im := imgRows(t, 1, w*h, 2)[0]
	var m, s [][]int
	for i := 0; i < 60; i++ {
		neg := i%5 > 1
		x := append([]int{}, im...)
		for j := range x {
			if neg {
				x[j] = 1 - x[j]
			}
		}
		c := 0
		if neg {
			c = 1
		}
		s = append(s, append(append([]int{}, x...), c))
		if i < 40 {
			m = append(m, append(append([]int{}, x...), i/20))
		}
	}
	cards := make([]int, w*h+1)
	for i := range cards {
		cards[i] = 2
	}
	for ds, rows := range map[string][][]int{"m": m, "s": s} {
		d := filepath.Join(p.dir, "data", ds, "compiled")
		os.MkdirAll(d, 0755)
		dataFile(filepath.Join(d, "all.data"), rows, cards)
		p.size[ds] = [3]int{w, h, 1}
	}
}

// images writes the image folders of a dataset.
func (p *project) images(d string, s *imageSet) {
	s.dir = d
	for i, f := range s.folders {
		os.MkdirAll(filepath.Join(d, fmt.Sprintf("c%d", i)), 0755)
		for j, im := range f {
			s.image(filepath.Join(d, fmt.Sprintf("c%d", i), fmt.Sprintf("%d.pgm", j)), im)
		}
	}
	p.src = s
}

// edit is the user's own doing between runs: other images, or a data file thrown away.
func (p *project) edit() {
	t := p.t
	if t.R.Intn(3) == 0 {
		ds := []string{"a", "b"}[t.R.Intn(2)]
		os.Remove(filepath.Join(p.dir, "data", ds, "compiled", "all.data"))
	} else {
		s := p.src
		for i := range s.folders {
			os.RemoveAll(filepath.Join(s.dir, fmt.Sprintf("c%d", i)))
		}
		if t.R.Intn(2) == 0 { // another class
			s.folders = append(s.folders, [][]int{nil, nil, nil}[:1+t.R.Intn(3)])
		} else {
			i := t.R.Intn(len(s.folders))
			s.folders[i] = append(s.folders[i], nil)
		}
		p.images(s.dir, t.sized(s))
	}
	s := p.src
	t.Emit(Ev{"op": "edit", "src": []Ev{{"ds": "a", "c": Ev{"folders": s.folders, "w": s.w, "h": s.h, "max": s.max}}}, "comp": p.compiled()})
}

// sized fills an image set anew after its size has been changed.
func (t *T) sized(s *imageSet) *imageSet {
	for _, f := range s.folders {
		for i := range f {
			f[i] = make([]int, s.w*s.h)
			for j := range f[i] {
				f[i][j] = t.R.Intn(s.max + 1)
			}
		}
	}
	return s
}

var trainRe = regexp.MustCompile(`Correct classifications: (-?\d+)/(-?\d+)|Train set size: (-?\d+)`)

func (p *project) run(a cliArgs) bool {
	t := p.t
	z := p.size[a.DS]
	a.W, a.H, a.Max = z[0], z[1], z[2]+1
	args := []string{"-mode=" + a.Mode, "-dataset=" + a.DS, fmt.Sprintf("-p=%v", float64(a.P)/float64(a.Q)), "-iterations=" + strconv.Itoa(a.Iters),
		"-width=" + strconv.Itoa(a.W), "-height=" + strconv.Itoa(a.H), "-max=" + strconv.Itoa(a.Max)}
	for _, f := range []struct {
		flag string
		vals []string
	}{{"-concurrents", []string{"-1", "1", "2", "9"}}, {"-clusters", []string{"-1", "2", "1", "-2"}}, {"-rseed", []string{"-1", "0", "7"}}, {"-pval", []string{"0.0001", "0.5"}},
		{"-eps", []string{"4", "0.5"}}, {"-mp", []string{"4", "1"}}, {"-v", []string{"true", "false"}}} {
		set := map[string]*string{"-clusters": &a.Clusters, "-eps": &a.Eps, "-mp": &a.Mp, "-pval": &a.Pval}[f.flag]
		if set != nil && *set != "" {
			args = append(args, f.flag+"="+*set)
		} else if t.R.Intn(2) == 0 {
			v := f.vals[t.R.Intn(len(f.vals))]
			args = append(args, f.flag+"="+v)
			if set != nil {
				*set = v
			}
		}
	}
	if a.Mode == "cmpl" && t.R.Intn(2) == 0 { // the default
		args = args[1:]
	}
	t.Case("run of the program", strings.Join(args, " "))
	before := p.others()
	cmd := exec.Command(p.bin, args...)
	cmd.Dir = p.dir
	var out, errs bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errs
	e := Ev{"op": "run", "a": a, "args": args, "err": ""}
	o := Ev{"rc": 0}
	start := time.Now()
	kill := time.AfterFunc(60*time.Second, func() { cmd.Process.Kill() })
	if err := cmd.Start(); err != nil {
		panic(err)
	}
	cmd.Wait()
	kill.Stop()
	o["rc"] = cmd.ProcessState.ExitCode()
	if time.Since(start) > 59*time.Second {
		e["err"] = "hang"
	}
	if strings.Contains(errs.String(), "DATA RACE") {
		e["err"] = "data race: " + errs.String()
	}
	if o["rc"] != 0 {
		o["stderr"] = fmt.Sprintf("%.600s", errs.String())
	}
	res := []Ev{}
	for _, m := range trainRe.FindAllStringSubmatch(out.String(), -1) {
		num := func(s string) int { v, _ := strconv.Atoi(s); return v }
		if m[3] != "" {
			if len(res) > 0 {
				res[len(res)-1]["train"] = num(m[3])
			}
			continue
		}
		res = append(res, Ev{"corrects": num(m[1]), "total": num(m[2]), "train": -1})
	}
	o["results"] = res
	comp := p.compiled()
	if a.Mode == "data" {
		for _, c := range comp {
			if c["ds"] == a.DS {
				o["made"] = c["c"]
			}
		}
	}
	pics := p.pictures()
	if a.Mode == "cmpl" {
		drawn := []Ev{}
		n := 0
		for _, c := range comp {
			if c["ds"] == a.DS {
				n = len(c["c"].(Ev)["rows"].([][]int))
			}
		}
		for _, x := range pics {
			if x[0].(int) < n {
				drawn = append(drawn, Ev{"i": x[0], "typ": x[1], "f": netpbm(filepath.Join(p.dir, fmt.Sprintf("cmpl_%d-%s.pgm", x[0], x[1])))})
			}
		}
		o["drawn"] = drawn
	}
	e["o"], e["comp"], e["pics"], e["others"] = o, comp, pics, before == p.others()
	t.Emit(e)
	t.Sample(Ev{"what": "run of the program", "args": strings.Join(args, " "), "results": res})
	return e["err"] == ""
}

func (p *project) close() { os.RemoveAll(p.dir) }

func driveC30(t *T) {
	bin := os.Getenv("VERIF_CLI")
	k := 0
	ok := true
	play := func(h []cliArgs) {
		if !ok {
			return
		}
		p := t.newProject(bin, k)
		k++
		for _, a := range h {
			if t.R.Intn(4) == 0 {
				p.edit()
			}
			if ok = p.run(a); !ok {
				break
			}
		}
		p.close()
	}
	t.specLines(func(b []byte) {
		var h []cliArgs
		if err := json.Unmarshal(b, &h); err != nil {
			panic(err)
		}
		t.Case("history enumerated by TLC", "")
		play(h)
	})
	for i := 0; i < t.Pick(24, 200); i++ {
		var h []cliArgs
		for j := 2 + t.R.Intn(5); j > 0; j-- {
			a := cliArgs{Mode: []string{"data", "class", "cmpl", "cmpl", "class", "train"}[t.R.Intn(6)], DS: []string{"a", "b"}[t.R.Intn(2)], P: 1 + t.R.Intn(9), Q: 10, Iters: 1 + t.R.Intn(3)}
			switch t.R.Intn(12) {
			case 0:
				a.P = []int{0, 10, -3, 15}[t.R.Intn(4)]
			case 1:
				a.Iters = -t.R.Intn(3)
			}
			if t.R.Intn(4) == 0 { // what the learner is told shows
				a = cliArgs{Mode: "cmpl", DS: "m", P: 5, Q: 10, Iters: 1, Clusters: "-1", Eps: "0.5", Mp: []string{"1", "4"}[t.R.Intn(2)], Pval: []string{"0.0001", "0.5"}[t.R.Intn(2)]}
				switch t.R.Intn(6) {
				case 0:
					a.Clusters = "1"
				case 1:
					a.Eps = "400"
				case 2:
					a.Pval = "1e-12"
				case 3:
					a.Mode, a.DS, a.P = "class", "s", 9
				}
			}
			h = append(h, a)
		}
		play(h)
	}
}
