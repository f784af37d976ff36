package main

import (
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"regexp"
	"strconv"
	"strings"

	"github.com/RenatoGeh/gospn/io"
	"github.com/RenatoGeh/gospn/spn"
)

func init() { drivers["C27"] = driveC27 }

// thousandths reads a label as a weight, exactly.
func thousandths(s string, scale float64) int {
	x, err := strconv.ParseFloat(strings.TrimSpace(s), 64)
	if err != nil {
		return -2
	}
	v := x * scale
	if math.Abs(v-math.Round(v)) > 1e-6 || math.Abs(v) > 1<<30 {
		return -3
	}
	return int(math.Round(v))
}

var subscript = regexp.MustCompile(`^X_?(?:<sub>)?(-?\d+)(?:</sub>)?$`)

// label tells what a vertex stands for.
func label(s string) (string, []int) {
	s = strings.TrimSpace(s)
	switch s {
	case "+", "&#43;", "&plus;":
		return "sum", []int{}
	case "*", "&times;", "×", "&#215;":
		return "prod", []int{}
	}
	if m := subscript.FindStringSubmatch(s); m != nil {
		k, _ := strconv.Atoi(m[1])
		return "leaf", []int{k}
	}
	return "unknown: " + s, []int{}
}

// dot reads a Graphviz graph of vertices and edges with a label each.
func dot(path string) (v []Ev, e [][]interface{}, err error) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil, nil, err
	}
	v, e = []Ev{}, [][]interface{}{}
	s := strings.TrimSpace(string(b))
	i := strings.IndexByte(s, '{')
	if i < 0 || !strings.HasSuffix(s, "}") {
		return nil, nil, fmt.Errorf("not a graph")
	}
	head := strings.Fields(s[:i])
	if len(head) == 0 || (head[0] != "graph" && head[0] != "digraph" && head[0] != "strict") {
		return nil, nil, fmt.Errorf("not a graph")
	}
	s = s[i+1 : len(s)-1]
	// statements end at a semicolon or a newline outside brackets, quotes and html
	var stmts []string
	cur, depth, quote := "", 0, false
	for _, c := range s {
		switch {
		case c == '"':
			quote = !quote
		case quote:
		case c == '[' || c == '<':
			depth++
		case c == ']' || c == '>':
			depth--
		}
		if (c == ';' && depth == 0 && !quote) || (c == '\n' && depth == 0 && !quote) {
			stmts = append(stmts, cur)
			cur = ""
			continue
		}
		cur += string(c)
	}
	stmts = append(stmts, cur)
	if depth != 0 || quote {
		return nil, nil, fmt.Errorf("unbalanced")
	}
	known := map[string]bool{}
	for _, st := range stmts {
		st = strings.TrimSpace(st)
		if st == "" {
			continue
		}
		attr := ""
		if k := strings.IndexByte(st, '['); k >= 0 {
			if !strings.HasSuffix(st, "]") {
				return nil, nil, fmt.Errorf("bad statement: %s", st)
			}
			attr, st = st[k+1:len(st)-1], strings.TrimSpace(st[:k])
		}
		lab, has := "", false
		if k := strings.Index(attr, "label="); k >= 0 {
			has = true
			a := attr[k+6:]
			if strings.HasPrefix(a, `"`) {
				j := strings.IndexByte(a[1:], '"')
				lab = a[1 : 1+j]
			} else if strings.HasPrefix(a, "<") {
				d, j := 0, 0
				for j = range a {
					if a[j] == '<' {
						d++
					} else if a[j] == '>' {
						d--
						if d == 0 {
							break
						}
					}
				}
				lab = a[1:j]
			} else {
				lab = strings.TrimSpace(strings.SplitN(a, ",", 2)[0])
			}
		}
		sep := "--"
		if strings.Contains(st, "->") {
			sep = "->"
		}
		if ends := strings.Split(st, sep); len(ends) == 2 {
			w := -1
			if has {
				w = thousandths(lab, 1000)
			}
			e = append(e, []interface{}{strings.TrimSpace(ends[0]), strings.TrimSpace(ends[1]), w})
		} else if len(ends) == 1 && len(strings.Fields(st)) == 1 {
			if known[st] { // said twice: the later label counts, as in Graphviz
				for _, x := range v {
					if x["n"] == st {
						x["t"], x["show"] = label(lab)
					}
				}
				continue
			}
			known[st] = true
			t, show := label(lab)
			v = append(v, Ev{"n": st, "t": t, "show": show})
		} else {
			return nil, nil, fmt.Errorf("bad statement: %s", st)
		}
	}
	return
}

var block = regexp.MustCompile(`(?s)([A-Za-z]+\d+) \[\n(.*?)\]\n`)

// listing reads what PrintSPN wrote.
func listing(path string) (v []Ev, e [][]interface{}, err error) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil, nil, err
	}
	v, e = []Ev{}, [][]interface{}{}
	if rest := block.ReplaceAllString(string(b), ""); strings.TrimSpace(rest) != "" {
		return nil, nil, fmt.Errorf("unread: %.80s", rest)
	}
	for _, m := range block.FindAllStringSubmatch(string(b), -1) {
		t := map[byte]string{'S': "sum", 'P': "prod", 'L': "leaf"}[m[1][0]]
		show := []int{}
		for _, ln := range strings.Split(strings.TrimSpace(m[2]), "\n") {
			fs := strings.Fields(ln)
			switch {
			case len(fs) == 0:
			case t == "leaf" && len(fs) == 2:
				sd, _ := strconv.ParseFloat(fs[1], 64)
				show = append(show, thousandths(fs[0], 1e5), int(math.Round(sd*1000)))
			case t == "sum" && len(fs) == 2:
				e = append(e, []interface{}{m[1], fs[0], thousandths(fs[1], 1000)})
			case t == "prod" && len(fs) == 1:
				e = append(e, []interface{}{m[1], fs[0], -1})
			default:
				return nil, nil, fmt.Errorf("bad line: %s", ln)
			}
		}
		v = append(v, Ev{"n": m[1], "t": t, "show": show})
	}
	return
}

// A stand-in for graph-tool that records what a script draws.
const stub = `
import sys, types, json
class V(int): pass
class Prop(dict):
    def __hash__(self): return id(self)
class Graph:
    def __init__(self, directed=True): self.v, self.e, self.vertex_properties, self.edge_properties = [], [], {}, {}
    def new_vertex_property(self, t): return Prop()
    def new_edge_property(self, t): return Prop()
    def add_vertex(self): self.v.append(len(self.v)); return self.v[-1]
    def add_edge(self, a, b):
        assert a in self.v and b in self.v
        self.e.append((a, b)); return "e%d" % (len(self.e) - 1)
draws = []
def graph_draw(g, vertex_text=None, edge_text=None, vertex_fill_color=None, output=None, **kw):
    draws.append({"v": [[str(a), str(vertex_text[a])] for a in g.v], "colour": [vertex_fill_color[a] for a in g.v],
                  "e": [[str(a), str(b), edge_text.get("e%d" % i)] for i, (a, b) in enumerate(g.e)], "output": output})
m = types.ModuleType("graph_tool"); a = types.ModuleType("graph_tool.all")
a.Graph, a.graph_draw = Graph, graph_draw
a.__all__ = ["Graph", "graph_draw"]
m.all = a
sys.modules["graph_tool"], sys.modules["graph_tool.all"] = m, a
for path in open(sys.argv[1]).read().split("\n"):
    if not path: continue
    draws = []
    err = ""
    try: exec(compile(open(path).read(), path, "exec"), {"__name__": "__main__"})
    except BaseException as x: err = repr(x)
    print(json.dumps({"draws": draws, "err": err}))
`

type toolsRun struct {
	e    Ev
	path string
}

// graphs draws one network in all ways. Drawings for graph-tool are looked at later, all at once.
func (t *T) graphs(n Net, i int, later *[]func(), scripts *[]toolsRun) bool {
	nodes := n.Build()
	root := nodes[len(nodes)-1]
	before, _ := Snapshot(root)
	*later = append(*later, func() { t.Emit(Ev{"op": "net", "net": n.JSON()}) })
	one := func(op, ext string, f func(path string, s spn.SPN), read func(string) ([]Ev, [][]interface{}, error)) bool {
		path := filepath.Join(t.Dir, fmt.Sprintf("%s%d%s", op, i, ext))
		e := Ev{"op": op, "kept": false}
		err := Call(func() { f(path, root) })
		e["err"] = err
		if err == "" {
			after, _ := Snapshot(root)
			e["kept"] = reflect.DeepEqual(before, after)
			if read != nil {
				v, ed, re := read(path)
				if re != nil {
					e["err"] = "unreadable: " + re.Error()
				} else {
					e["g"] = Ev{"v": v, "e": ed}
				}
				os.Remove(path)
			} else {
				*scripts = append(*scripts, toolsRun{e, path})
			}
		}
		*later = append(*later, func() { t.Emit(e) })
		return !Hung(err)
	}
	return one("dot", ".dot", func(p string, s spn.SPN) { io.DrawGraph(p, s) }, dot) &&
		one("tools", ".py", func(p string, s spn.SPN) { io.DrawGraphTools(p, s) }, nil) &&
		one("print", ".spn", func(p string, s spn.SPN) { spn.PrintSPN(s, p) }, listing)
}

// runTools runs the scripts with the stand-in and completes their events.
func (t *T) runTools(scripts []toolsRun) {
	if len(scripts) == 0 {
		return
	}
	lib, list := filepath.Join(t.Dir, "stub.py"), filepath.Join(t.Dir, "list")
	var ps []string
	for _, s := range scripts {
		ps = append(ps, s.path)
	}
	os.WriteFile(lib, []byte(stub), 0644)
	os.WriteFile(list, []byte(strings.Join(ps, "\n")), 0644)
	cmd := exec.Command("python3", lib, list)
	cmd.Stderr = os.Stderr
	out, err := cmd.Output()
	lines := strings.Split(strings.TrimSpace(string(out)), "\n")
	if err != nil || len(lines) != len(scripts) {
		fmt.Fprintln(os.Stderr, "cannot run the stand-in for graph-tool:", err)
		os.Exit(3)
	}
	for i, s := range scripts {
		var r struct {
			Draws []struct {
				V      [][2]string
				E      [][3]*string
				Output string
			}
			Err string
		}
		if err := json.Unmarshal([]byte(lines[i]), &r); err != nil {
			s.e["err"] = "script: " + err.Error()
			continue
		}
		os.Remove(s.path)
		if r.Err != "" {
			s.e["err"] = "script: " + r.Err
			continue
		}
		s.e["drawn"] = len(r.Draws)
		s.e["png"] = false
		v, ed := []Ev{}, [][]interface{}{}
		if len(r.Draws) > 0 {
			d := r.Draws[0]
			s.e["png"] = d.Output == strings.TrimSuffix(s.path, ".py")+".png"
			for _, x := range d.V {
				k, show := label(x[1])
				v = append(v, Ev{"n": x[0], "t": k, "show": show})
			}
			for _, x := range d.E {
				w := -1
				if x[2] != nil && *x[2] != "" {
					w = thousandths(*x[2], 1000)
				}
				ed = append(ed, []interface{}{*x[0], *x[1], w})
			}
		}
		s.e["g"] = Ev{"v": v, "e": ed}
	}
}

// unrolled is the size of the tree a network unrolls to.
func (n Net) unrolled() int {
	sz := make([]int, len(n))
	for i, x := range n {
		sz[i] = 1
		for _, c := range x.Ch {
			sz[i] += sz[c-1]
			if sz[i] > 1<<20 {
				return sz[i]
			}
		}
	}
	return sz[len(n)-1]
}

func driveC27(t *T) {
	var later []func()
	var scripts []toolsRun
	ok := true
	k := 0
	play := func(n Net) {
		if ok {
			ok = t.graphs(n, k, &later, &scripts)
			k++
		}
	}
	for _, n := range t.SpecNets() {
		play(n)
	}
	for i := 0; i < t.Pick(150, 2500) && ok; i++ {
		var n Net
		switch i % 5 {
		case 0, 1:
			n = GenMix(t.R)
		case 2:
			n = GenAny(t.R, 12+12*t.R.Intn(2), 4)
		case 3:
			n = GenValid(t.R, netOpts{nvars: 2 + t.R.Intn(4), maxNodes: 14, share: 0.5, norm: true})
		case 4:
			n = Net{{T: "ind", Var: t.R.Intn(5000), Val: t.R.Intn(3)}}
		}
		if i%30 == 7 { // a tree with many nodes
			n = GenTree(t.R, 500+t.R.Intn(900))
		}
		vk, vo, far, heavy := 1, 0, 41, 3
		if t.R.Intn(3) == 0 { // variables, means and weights of any size
			vk, vo, far, heavy = 1+t.R.Intn(200), t.R.Intn(2000), 9000, 3+t.R.Intn(3000)
		}
		for j := range n {
			x := &n[j]
			if len(x.Ch) == 0 {
				x.Var = vk*x.Var + vo
			}
			if (x.T == "ind" || x.T == "mult") && t.R.Intn(4) == 0 {
				*x = NodeSpec{T: "gauss", Var: x.Var, Val: t.R.Intn(far) - far/2, Td: 1 + t.R.Intn(12)}
			}
			if x.T == "sum" { // eighths, of any size
				x.Wd = t.R.Intn(4)
				for c := range x.W {
					x.W[c] = t.R.Intn(2 + heavy<<uint(x.Wd))
				}
			}
			if x.T == "mult" && x.Td > 2 {
				*x = NodeSpec{T: "ind", Var: x.Var, Val: 1}
			}
		}
		most := 60
		if i%11 == 0 {
			most = 200
		}
		if i%30 == 7 {
			most = 2000
		}
		if n.unrolled() > most {
			continue
		}
		t.Case("random network", n.Key())
		play(n)
	}
	t.runTools(scripts)
	for _, f := range later {
		f()
	}
}

// GenTree builds a tree with about as many nodes as asked for.
func GenTree(r *rand.Rand, nodes int) Net {
	var n Net
	var grow func(size int) int
	grow = func(size int) int {
		if size <= 1 {
			n = append(n, NodeSpec{T: "ind", Var: r.Intn(40), Val: r.Intn(2)})
			return len(n)
		}
		x := NodeSpec{T: []string{"sum", "prod"}[r.Intn(2)]}
		k := 1 + r.Intn(4)
		if size > 2 && k == 1 {
			k = 2
		}
		for j := 0; j < k; j++ {
			x.Ch = append(x.Ch, grow((size-1)/k))
			if x.T == "sum" {
				x.W = append(x.W, 1)
			}
		}
		n = append(n, x)
		return len(n)
	}
	grow(nodes)
	return n
}
