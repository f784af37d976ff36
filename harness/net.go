package main

import (
	"fmt"
	"math"
	"math/rand"
	"reflect"
	"sort"
	"strconv"

	"github.com/RenatoGeh/gospn/spn"
)

// NodeSpec is a node as the specification sees it. Children are 1-based indices smaller than the
// node's own index; the root is the last node.
type NodeSpec struct {
	T   string `json:"t"` // sum, prod, ind, mult
	Ch  []int  `json:"ch"`
	W   []int  `json:"w"`
	Wd  int    `json:"wd"`
	Var int    `json:"var"`
	Val int    `json:"val"`
	Tab []int  `json:"tab"`
	Td  int    `json:"td"`
}

// Net is a network in the specification's terms.
type Net []NodeSpec

func (n Net) JSON() []map[string]interface{} {
	out := make([]map[string]interface{}, len(n))
	for i, x := range n {
		switch x.T {
		case "sum":
			out[i] = map[string]interface{}{"t": "sum", "ch": x.Ch, "w": x.W, "wd": x.Wd}
		case "prod":
			out[i] = map[string]interface{}{"t": "prod", "ch": x.Ch}
		case "ind":
			out[i] = map[string]interface{}{"t": "ind", "var": x.Var, "val": x.Val}
		case "mult":
			out[i] = map[string]interface{}{"t": "mult", "var": x.Var, "tab": x.Tab, "td": x.Td}
		case "gauss": // mean and deviation in quarters
			out[i] = map[string]interface{}{"t": "gauss", "var": x.Var, "mu": x.Val, "sd": x.Td}
		}
	}
	return out
}

// Key identifies a network.
func (n Net) Key() string { return fmt.Sprint([]NodeSpec(n)) }

// Build constructs the network with the library's public constructors.
func (n Net) Build() []spn.SPN {
	nodes := make([]spn.SPN, len(n))
	for i, x := range n {
		switch x.T {
		case "sum":
			s := spn.NewSum()
			for j, c := range x.Ch {
				s.AddChildW(nodes[c-1], float64(x.W[j])/math.Ldexp(1, x.Wd))
			}
			nodes[i] = s
		case "prod":
			p := spn.NewProduct()
			for _, c := range x.Ch {
				p.AddChild(nodes[c-1])
			}
			nodes[i] = p
		case "ind":
			nodes[i] = spn.NewIndicator(x.Var, x.Val)
		case "mult":
			pr := make([]float64, len(x.Tab))
			for j, k := range x.Tab {
				pr[j] = float64(k) / math.Ldexp(1, x.Td)
			}
			nodes[i] = spn.NewMultinomial(x.Var, pr)
		case "gauss":
			nodes[i] = spn.NewGaussianParams(x.Var, float64(x.Val)/4, float64(x.Td)/4)
		}
	}
	return nodes
}

// Den is the exponent of the denominator of every node.
func (n Net) Den() []int {
	d := make([]int, len(n))
	for i, x := range n {
		switch x.T {
		case "mult":
			d[i] = x.Td
		case "prod":
			for _, c := range x.Ch {
				d[i] += d[c-1]
			}
		case "sum":
			for _, c := range x.Ch {
				if d[c-1] > d[i] {
					d[i] = d[c-1]
				}
			}
			d[i] += x.Wd
		}
	}
	return d
}

// limit keeps every number the specification computes (node values, derivatives, their products)
// inside TLC's integers: a bound of all of them with every leaf at its largest.
func (n Net) fits() bool {
	return n.fitsIn(1 << 28)
}

// fitsIn is fits for another bound.
func (n Net) fitsIn(lim float64) bool {
	den := n.Den()
	v := make([]float64, len(n))
	for i, x := range n {
		switch x.T {
		case "ind":
			v[i] = 1
		case "mult":
			v[i] = math.Ldexp(1, x.Td)
			for _, k := range x.Tab {
				v[i] = math.Max(v[i], float64(k))
			}
		case "prod":
			v[i] = 1
			for _, c := range x.Ch {
				v[i] *= v[c-1]
			}
		case "sum":
			for j, c := range x.Ch {
				v[i] += v[c-1] * float64(x.W[j]) * math.Ldexp(1, den[i]-x.Wd-den[c-1])
			}
		}
		if v[i] > lim {
			return false
		}
	}
	d := make([]float64, len(n))
	d[len(n)-1] = 1
	for i := len(n) - 1; i >= 0; i-- {
		x := n[i]
		for j, c := range x.Ch {
			g := d[i]
			if x.T == "sum" {
				if d[i]*v[c-1]*math.Ldexp(1, den[i]-den[c-1]) > lim {
					return false
				}
				g *= float64(x.W[j]) * math.Ldexp(1, den[i]-x.Wd-den[c-1])
			} else {
				for k, o := range x.Ch {
					if k != j {
						g *= v[o-1]
					}
				}
			}
			d[c-1] += g
			if d[c-1] > lim {
				return false
			}
		}
	}
	return true
}

// Vars returns the variables of the network with the number of values evidence may give them.
func (n Net) Vars() (vars []int, card map[int]int) {
	card = map[int]int{}
	for _, x := range n {
		switch x.T {
		case "ind":
			if c := x.Val + 1; c > card[x.Var] {
				card[x.Var] = c
			}
		}
	}
	for _, x := range n { // a multinomial bounds the values
		if x.T == "mult" {
			card[x.Var] = len(x.Tab)
		}
	}
	for _, x := range n { // the smallest multinomial bounds the values
		if x.T == "mult" && len(x.Tab) < card[x.Var] {
			card[x.Var] = len(x.Tab)
		}
	}
	for v := range card {
		vars = append(vars, v)
	}
	sort.Ints(vars)
	return
}

// Valid networks: every region (a set of variables) has a pool of nodes over exactly that region.
type netOpts struct {
	nvars    int
	maxNodes int
	share    float64 // how often an existing node of the region is reused
	norm     bool    // weights sum to one (dyadic)
	zero     bool    // zero weights and probabilities allowed
	leaf     string  // ind, mult or "" for both
	card     int     // 0: random 2..3
	deep     bool
	varids   []int
}

type netGen struct {
	r     *rand.Rand
	o     netOpts
	net   Net
	pool  map[string][]int
	card  map[int]int
	fuel  int
	depth int
}

func (g *netGen) add(x NodeSpec) int {
	g.net = append(g.net, x)
	return len(g.net)
}

func (g *netGen) leafNode(v int) int {
	kind := g.o.leaf
	if kind == "" {
		kind = []string{"ind", "mult", "mult"}[g.r.Intn(3)]
	}
	if kind == "ind" {
		return g.add(NodeSpec{T: "ind", Var: v, Val: g.r.Intn(g.card[v])})
	}
	td := 2
	if g.card[v] > 4 {
		td = 4
	}
	tab := make([]int, g.card[v])
	left := 1 << uint(td)
	for i := range tab {
		if i == len(tab)-1 {
			tab[i] = left
			break
		}
		max := left - (len(tab) - 1 - i)
		k := 1
		if max > 1 {
			k = 1 + g.r.Intn(max)
		}
		if g.o.zero && g.r.Intn(6) == 0 {
			k = 0
		}
		tab[i] = k
		left -= k
	}
	g.r.Shuffle(len(tab), func(i, j int) { tab[i], tab[j] = tab[j], tab[i] })
	return g.add(NodeSpec{T: "mult", Var: v, Tab: tab, Td: td})
}

func (g *netGen) weights(n int) ([]int, int) {
	w := make([]int, n)
	if g.o.norm {
		wd := 2
		for n > 1<<uint(wd) {
			wd++
		}
		left := 1 << uint(wd)
		for i := range w {
			if i == n-1 {
				w[i] = left
				break
			}
			max := left - (n - 1 - i)
			k := 1
			if max > 1 {
				k = 1 + g.r.Intn(max)
			}
			w[i] = k
			left -= k
		}
		g.r.Shuffle(n, func(i, j int) { w[i], w[j] = w[j], w[i] })
		return w, wd
	}
	for i := range w {
		w[i] = 1 + g.r.Intn(4)
		if g.o.zero && g.r.Intn(8) == 0 {
			w[i] = 0
		}
	}
	return w, 0
}

func regionKey(vs []int) string { return fmt.Sprint(vs) }

// region returns a node over exactly the variables vs.
func (g *netGen) region(vs []int, depth int) int {
	key := regionKey(vs)
	if p := g.pool[key]; len(p) > 0 && (g.r.Float64() < g.o.share || g.fuel <= 0) {
		return p[g.r.Intn(len(p))]
	}
	g.fuel--
	var k int
	if len(vs) == 1 {
		if g.fuel > 0 && depth < 6 && g.r.Intn(3) == 0 {
			k = g.sum(vs, depth)
		} else {
			k = g.leafNode(vs[0])
		}
	} else if g.fuel > 0 && depth < 8 && g.r.Intn(2) == 0 {
		k = g.sum(vs, depth)
	} else {
		k = g.prod(vs, depth)
	}
	g.pool[key] = append(g.pool[key], k)
	return k
}

func (g *netGen) sum(vs []int, depth int) int {
	n := 1 + g.r.Intn(3)
	ch := make([]int, n)
	for i := range ch {
		ch[i] = g.region(vs, depth+1)
	}
	w, wd := g.weights(n)
	return g.add(NodeSpec{T: "sum", Ch: ch, W: w, Wd: wd})
}

func (g *netGen) prod(vs []int, depth int) int {
	perm := append([]int(nil), vs...)
	g.r.Shuffle(len(perm), func(i, j int) { perm[i], perm[j] = perm[j], perm[i] })
	parts := 2
	if len(vs) > 2 && g.r.Intn(3) == 0 {
		parts = 3
	}
	if g.r.Intn(8) == 0 {
		parts = 1 // a product with a single child
	}
	var ch []int
	cut := make([][]int, parts)
	for i, v := range perm {
		j := i
		if i >= parts {
			j = g.r.Intn(parts)
		}
		cut[j] = append(cut[j], v)
	}
	for _, c := range cut {
		sort.Ints(c)
		if parts == 1 {
			ch = append(ch, g.sum(c, depth+1))
		} else {
			ch = append(ch, g.region(c, depth+1))
		}
	}
	return g.add(NodeSpec{T: "prod", Ch: ch})
}

// prune keeps what is reachable from the last node and renumbers in post order (children in order),
// which is the canonical numbering of an ordered rooted DAG.
func (n Net) prune() Net {
	m := map[int]int{}
	var out Net
	var visit func(k int) int
	visit = func(k int) int {
		if j, ok := m[k]; ok {
			return j
		}
		x := n[k-1]
		ch := make([]int, len(x.Ch))
		for i, c := range x.Ch {
			ch[i] = visit(c)
		}
		x.Ch = ch
		out = append(out, x)
		m[k] = len(out)
		return len(out)
	}
	visit(len(n))
	return out
}

// GenValid generates a complete and decomposable network.
func GenValid(r *rand.Rand, o netOpts) Net {
	for try := 0; ; try++ {
		g := &netGen{r: r, o: o, pool: map[string][]int{}, card: map[int]int{}, fuel: o.maxNodes}
		if try > 50 {
			g.fuel = 4
		}
		vs := o.varids
		if vs == nil {
			pool := r.Perm(o.nvars * 2)
			vs = append([]int(nil), pool[:o.nvars]...)
		}
		sort.Ints(vs)
		for _, v := range vs {
			c := o.card
			if c == 0 {
				c = 2 + r.Intn(2)
				if r.Intn(12) == 0 {
					c = 4 + r.Intn(8)
				}
			}
			g.card[v] = c
		}
		k := 0
		if r.Intn(6) != 0 {
			k = g.sum(vs, 0)
		} else {
			k = g.region(vs, 0)
		}
		g.net = g.net[:k]
		n := g.net.prune()
		if n.fits() {
			return n
		}
	}
}

// GenAny generates an arbitrary rooted DAG: nothing guarantees completeness or decomposability.
func GenAny(r *rand.Rand, maxNodes, nvars int) Net {
	for {
		var n Net
		leaves := 1 + r.Intn(4)
		g := &netGen{r: r, o: netOpts{zero: r.Intn(4) == 0, norm: r.Intn(3) == 0}, card: map[int]int{}}
		for v := 0; v < nvars; v++ {
			g.card[v] = 2 + r.Intn(2)
		}
		for i := 0; i < leaves; i++ {
			g.leafNode(r.Intn(nvars))
		}
		n = g.net
		total := leaves + r.Intn(maxNodes-leaves+1)
		for len(n) < total {
			k := 1 + r.Intn(3)
			ch := make([]int, k)
			for i := range ch {
				ch[i] = 1 + r.Intn(len(n))
				if r.Intn(2) == 0 { // prefer recent nodes, for depth
					ch[i] = len(n) - r.Intn(1+len(n)/3)
				}
			}
			if r.Intn(2) == 0 {
				w, wd := g.weights(k)
				n = append(n, NodeSpec{T: "sum", Ch: ch, W: w, Wd: wd})
			} else {
				n = append(n, NodeSpec{T: "prod", Ch: ch})
			}
		}
		n = n.prune()
		if n.fits() {
			return n
		}
	}
}

// GenDeep generates a deep network: a chain in which every node also has a shortcut to lower levels.
func GenDeep(r *rand.Rand, depth int) Net {
	for {
		n := Net{{T: "ind", Var: 0, Val: 0}, {T: "ind", Var: 0, Val: 1}, {T: "mult", Var: 1, Tab: []int{1, 3}, Td: 2}}
		n = append(n, NodeSpec{T: "sum", Ch: []int{1, 2}, W: []int{1, 1}})
		for i := 0; i < depth; i++ {
			k := len(n)
			switch r.Intn(4) {
			case 0:
				n = append(n, NodeSpec{T: "prod", Ch: []int{k}})
			case 1:
				n = append(n, NodeSpec{T: "sum", Ch: []int{k}, W: []int{1}})
			case 2: // shortcut of weight zero: structure only
				n = append(n, NodeSpec{T: "sum", Ch: []int{1 + r.Intn(k), k}, W: []int{0, 1}})
			case 3:
				if r.Intn(4) == 0 {
					n = append(n, NodeSpec{T: "sum", Ch: []int{k, 1 + r.Intn(k)}, W: []int{1, 1}})
				} else {
					n = append(n, NodeSpec{T: "sum", Ch: []int{k, 1 + r.Intn(k)}, W: []int{1, 0}})
				}
			}
		}
		n = append(n, NodeSpec{T: "prod", Ch: []int{3, len(n)}})
		n = n.prune()
		if n.fits() {
			return n
		}
	}
}

// GenWide generates a network with one wide sum over wide products.
func GenWide(r *rand.Rand, width int) Net {
	for {
		var n Net
		for v := 0; v < 3; v++ {
			n = append(n, NodeSpec{T: "ind", Var: v, Val: 0}, NodeSpec{T: "ind", Var: v, Val: 1})
		}
		var ch, w []int
		for i := 0; i < width; i++ {
			n = append(n, NodeSpec{T: "prod", Ch: []int{1 + r.Intn(2), 3 + r.Intn(2), 5 + r.Intn(2)}})
			ch = append(ch, len(n))
			w = append(w, 1+r.Intn(9))
		}
		n = append(n, NodeSpec{T: "sum", Ch: ch, W: w})
		n = n.prune()
		if n.fits() {
			return n
		}
	}
}

// GenBushy generates a network with many children at every level: a sum of products of sums of leaves,
// the inner sums shared by the products.
func GenBushy(r *rand.Rand) Net {
	for {
		var n Net
		nv := 2 + r.Intn(8)
		sums := make([][]int, nv)
		for v := 0; v < nv; v++ {
			lo := len(n)
			card := 2 + r.Intn(6)
			for u := 0; u < card; u++ {
				n = append(n, NodeSpec{T: "ind", Var: v, Val: u})
			}
			sums[v] = append(sums[v], lo+1+r.Intn(card))
			for s := 0; s < 1+r.Intn(2); s++ {
				var ch, w []int
				for _, u := range r.Perm(card) {
					ch, w = append(ch, lo+1+u), append(w, r.Intn(3))
					if r.Intn(5) == 0 { // twice the same leaf
						ch, w = append(ch, lo+1+u), append(w, 1)
					}
				}
				n = append(n, NodeSpec{T: "sum", Ch: ch, W: w, Wd: r.Intn(2)})
				sums[v] = append(sums[v], len(n))
			}
		}
		var ch, w []int
		for i := 1 + r.Intn(9); i >= 0; i-- {
			var c []int
			for _, v := range r.Perm(nv) {
				c = append(c, sums[v][r.Intn(len(sums[v]))])
			}
			n = append(n, NodeSpec{T: "prod", Ch: c})
			ch, w = append(ch, len(n)), append(w, 1+r.Intn(3))
		}
		n = append(n, NodeSpec{T: "sum", Ch: ch, W: w, Wd: r.Intn(4)})
		n = n.prune()
		if n.fits() {
			return n
		}
	}
}

// spread renames the variables: numbers are arbitrary, may be large and have gaps.
func (n Net) spread(r *rand.Rand) Net {
	to, used := map[int]int{}, map[int]bool{}
	m := append(Net(nil), n...)
	for i := range m {
		if len(m[i].Ch) > 0 {
			continue
		}
		v, ok := to[m[i].Var]
		for !ok {
			v = []int{r.Intn(40), 60 + r.Intn(10), 120 + r.Intn(20), 250 + r.Intn(12), 1000 + r.Intn(50), 65530 + r.Intn(12), 1000000 + r.Intn(9)}[r.Intn(7)]
			if !used[v] {
				to[m[i].Var], used[v], ok = v, true, true
			}
		}
		m[i].Var = v
	}
	return m
}

// GenMix picks a network of any family.
func GenMix(r *rand.Rand) Net {
	n := genMix(r)
	if r.Intn(4) == 0 {
		n = n.spread(r)
	}
	return n
}

func genMix(r *rand.Rand) Net {
	switch r.Intn(13) {
	case 12:
		return GenBushy(r)
	case 0, 1, 2:
		return GenAny(r, 4+r.Intn(9), 1+r.Intn(3))
	case 3:
		if r.Intn(12) == 0 {
			return GenDeep(r, 60+r.Intn(80))
		}
		return GenDeep(r, 5+r.Intn(30))
	case 4:
		if r.Intn(12) == 0 {
			return GenWide(r, 100+r.Intn(200))
		}
		return GenWide(r, 2+r.Intn(40))
	case 5: // single leaf
		return GenValid(r, netOpts{nvars: 1, maxNodes: 1, norm: true})
	case 6, 7:
		return GenValid(r, netOpts{nvars: 1 + r.Intn(4), maxNodes: 6 + r.Intn(12), share: 0.5, zero: r.Intn(2) == 0})
	case 8:
		return GenValid(r, netOpts{nvars: 2 + r.Intn(4), maxNodes: 20, share: 0.6, leaf: "ind"})
	default:
		return GenValid(r, netOpts{nvars: 1 + r.Intn(4), maxNodes: 4 + r.Intn(16), share: 0.4, norm: true, zero: r.Intn(3) == 0})
	}
}

// Evidence generates a partial assignment; now and then it also gives values to variables which are
// not in the network.
func (n Net) Evidence(r *rand.Rand) spn.VarSet {
	vars, card := n.Vars()
	e := spn.VarSet{}
	p := []float64{0, 0.3, 0.6, 1, 1}[r.Intn(5)]
	for _, v := range vars {
		if r.Float64() < p {
			e[v] = r.Intn(card[v])
		}
	}
	if u := 97 + r.Intn(3); r.Intn(5) == 0 && card[u] == 0 {
		e[u] = r.Intn(4)
	}
	return e
}

// Pairs writes a map as sorted pairs.
func Pairs(m map[int]int) [][2]int {
	ks := make([]int, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Ints(ks)
	out := make([][2]int, len(ks))
	for i, k := range ks {
		out[i] = [2]int{k, m[k]}
	}
	return out
}

func copyVS(m map[int]int) spn.VarSet {
	c := spn.VarSet{}
	for k, v := range m {
		c[k] = v
	}
	return c
}

const bad = -1 // not an exact value of the expected kind

// Num is the numerator of exp(l) over 2^den, or bad if exp(l) is not such a number.
func Num(l float64, den int) int {
	x := math.Exp(l) * math.Ldexp(1, den)
	if math.IsNaN(x) || x > 1<<30 {
		return bad
	}
	k := math.Round(x)
	if math.Abs(x-k) > 1e-8*math.Max(1, k) {
		return bad
	}
	return int(k)
}

// Lin is the numerator of x over 2^den.
func Lin(x float64, den int) int {
	x *= math.Ldexp(1, den)
	k := math.Round(x)
	if math.IsNaN(x) || math.Abs(x) > 1<<30 || math.Abs(x-k) > 1e-8*math.Max(1, math.Abs(k)) {
		return bad
	}
	return int(k)
}

func fbits(x float64) string { return strconv.FormatFloat(x, 'x', -1, 64) }

func fbitsAll(v []float64) []string {
	out := make([]string, len(v))
	for i, x := range v {
		out[i] = fbits(x)
	}
	return out
}

// Snapshot projects a real network, read through the public API only, on the canonical numbering
// (post order, first visit), with exact weights.
func Snapshot(S spn.SPN) (out []map[string]interface{}, order []spn.SPN) {
	m := map[spn.SPN]int{}
	onPath := map[spn.SPN]bool{}
	var visit func(s spn.SPN) int
	visit = func(s spn.SPN) int {
		if isNil(s) {
			return 0
		}
		if j, ok := m[s]; ok {
			return j
		}
		if onPath[s] {
			panic("cycle in the network")
		}
		onPath[s] = true
		ch := s.Ch()
		kids := make([]int, len(ch))
		for i, c := range ch {
			kids[i] = visit(c)
		}
		delete(onPath, s)
		e := map[string]interface{}{"t": s.Type(), "ch": kids, "w": []string{}, "sub": "", "par": []string{}, "var": -1}
		switch x := s.(type) {
		case *spn.Sum:
			e["w"] = fbitsAll(x.Weights())
		case *spn.Product:
		case *spn.Multinomial:
			e["sub"], e["par"] = "multinomial", fbitsAll(x.Pr())
			e["var"] = first(x.Sc())
		case *spn.Gaussian:
			mu, sd := x.Params()
			e["sub"], e["par"] = "gaussian", fbitsAll([]float64{mu, sd})
			e["var"] = first(x.Sc())
		case *spn.Indicator:
			e["sub"] = "indicator"
			v := first(x.Sc())
			e["var"] = v
			// the value an indicator stands for, seen through its behaviour
			var on []string
			for _, u := range indProbes {
				if x.Value(spn.VarSet{v: u}) == 0 {
					on = append(on, strconv.Itoa(u))
				}
			}
			if on == nil {
				on = []string{}
			}
			e["par"] = on
		}
		out = append(out, e)
		order = append(order, s)
		m[s] = len(out)
		return len(out)
	}
	visit(S)
	return
}

// indProbes are the values asked of an indicator to see which one it stands for.
var indProbes = func() (l []int) {
	for u := -40; u <= 300; u++ {
		l = append(l, u)
	}
	for _, u := range farVals {
		for _, m := range []int{1 << 8, 1 << 15, 1 << 16} {
			l = append(l, u, u+1, u-1, -u, u%m, u+m, u-m, u&(m-1))
		}
	}
	return uniq(l)
}()

// farVals are values of a variable far from the usual 0, 1, 2...
var farVals = []int{-1, -7, 255, 256, 299, 32768, 65535, 65536, 65600, 70001, -70000, 1 << 20, 1 << 30, -(1 << 30)}

func uniq(l []int) (out []int) {
	seen := map[int]bool{}
	for _, x := range l {
		if !seen[x] {
			seen[x] = true
			out = append(out, x)
		}
	}
	return
}

func first(s []int) int {
	if len(s) == 0 {
		return -1
	}
	return s[0]
}

func isNil(s spn.SPN) bool {
	if s == nil {
		return true
	}
	v := reflect.ValueOf(s)
	return v.Kind() == reflect.Ptr && v.IsNil()
}
