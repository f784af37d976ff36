package main

import (
	"encoding/json"
	"fmt"
	"math"
	"sort"

	"github.com/RenatoGeh/gospn/utils/cluster"
	"github.com/RenatoGeh/gospn/utils/cluster/metrics"
)

func init() {
	drivers["C17"] = driveC17
}

func floats(rows [][]int) [][]float64 {
	f := make([][]float64, len(rows))
	for i, r := range rows {
		f[i] = make([]float64, len(r))
		for j, v := range r {
			f[i][j] = float64(v)
		}
	}
	return f
}

// clusters as lists of row numbers from 1; same tells whether each row comes with its values
func clusterEv(e Ev, cs []map[int][]int, rows [][]int) {
	out := make([][]int, len(cs))
	same := true
	for i, c := range cs {
		out[i] = []int{}
		for r, v := range c {
			out[i] = append(out[i], r+1)
			same = same && r >= 0 && r < len(rows) && fmt.Sprint(v) == fmt.Sprint(rows[r])
		}
		sort.Ints(out[i])
	}
	e["cs"], e["same"] = out, same
}

func clusterEvF(e Ev, cs []map[int][]float64, rows [][]int) { clusterEvX(e, cs, floats(rows)) }

func clusterEvX(e Ev, cs []map[int][]float64, f [][]float64) {
	out := make([][]int, len(cs))
	same := true
	for i, c := range cs {
		out[i] = []int{}
		for r, v := range c {
			out[i] = append(out[i], r+1)
			same = same && r >= 0 && r < len(f) && fmt.Sprint(v) == fmt.Sprint(f[r])
		}
		sort.Ints(out[i])
	}
	e["cs"], e["same"] = out, same
}

func copyRows(rows [][]int) [][]int {
	c := make([][]int, len(rows))
	for i, r := range rows {
		c[i] = append([]int{}, r...)
	}
	return c
}

// the rows as instances, over variables with gaps between their numbers
func asMaps(rows [][]int, ids []int) []map[int]int {
	d := make([]map[int]int, len(rows))
	for i, r := range rows {
		d[i] = map[int]int{}
		for j, v := range r {
			d[i][ids[j]] = v
		}
	}
	return d
}

func groupsEv(e Ev, gs [][]map[int]int, ids []int, from int) {
	out := make([][][]int, len(gs))
	for i, g := range gs {
		out[i] = [][]int{}
		for _, m := range g {
			r := []int{}
			for _, v := range ids {
				x, ok := m[v]
				x -= from
				if !ok {
					x = -1
				}
				r = append(r, x)
			}
			if len(m) != len(ids) {
				r = append(r, -1)
			}
			out[i] = append(out[i], r)
		}
	}
	e["groups"] = out
}

// anyColumns gives f the rows with their columns in the order the clusters have them, if there is one: made from
// instances, a matrix has its columns in any order, the same for all rows.
func anyColumns(cs []map[int][]float64, rows [][]int, f func([][]int)) {
	m := len(rows[0])
	got := make([][]float64, len(rows))
	for _, c := range cs {
		for r, v := range c {
			if r >= 0 && r < len(rows) && len(v) == m {
				got[r] = v
			}
		}
	}
	perm, used := []int{}, make([]bool, m)
	for i := 0; i < m; i++ {
		for j := 0; j < m; j++ {
			same := !used[j]
			for r := range rows {
				same = same && got[r] != nil && got[r][i] == float64(rows[r][j])
			}
			if same {
				used[j], perm = true, append(perm, j)
				break
			}
		}
	}
	if len(perm) < m {
		f(rows)
		return
	}
	as := make([][]int, len(rows))
	for i := range as {
		for _, j := range perm {
			as[i] = append(as[i], rows[i][j])
		}
	}
	f(as)
}

func floatClusters(cs []map[int][]int) []map[int][]float64 {
	fs := make([]map[int][]float64, len(cs))
	for i, c := range cs {
		fs[i] = map[int][]float64{}
		for r, v := range c {
			fs[i][r] = floats([][]int{v})[0]
		}
	}
	return fs
}

func (t *T) densityCase(rows [][]int, e2, mp int, also bool) bool {
	// half way to the next distance, or where the radius is whole sometimes exactly that
	eps := math.Sqrt(float64(e2) + 0.5)
	if r := math.Sqrt(float64(e2)); r == math.Floor(r) && t.R.Intn(3) > 0 {
		eps = r
	}
	ids := []int{}
	for j := range rows[0] {
		ids = append(ids, 3*j+j%2)
	}
	data := copyRows(rows)
	kept := func() bool { return fmt.Sprint(data) == fmt.Sprint(rows) }
	e := Ev{"op": "dbscan", "e2": e2, "mp": mp}
	if !t.do(e, func() {
		clusterEv(e, cluster.DBSCAN(data, eps, mp), rows)
		e["kept"] = kept()
	}) {
		return false
	}
	e = Ev{"op": "dbscandata", "e2": e2, "mp": mp}
	m := asMaps(rows, ids)
	if also && !t.do(e, func() {
		groupsEv(e, cluster.DBSCANData(m, eps, mp), ids, 0)
		e["kept"] = fmt.Sprint(m) == fmt.Sprint(asMaps(rows, ids))
	}) {
		return false
	}
	e = Ev{"op": "optics", "e2": e2, "mp": mp}
	return t.do(e, func() {
		clusterEv(e, cluster.OPTICS(data, eps, mp), rows)
		e["kept"] = kept()
	})
}

func (t *T) centreCase(rows [][]int, k int, small bool) bool {
	ids := []int{}
	for j := range rows[0] {
		ids = append(ids, 2*j+j/2)
	}
	data := copyRows(rows)
	// the same rows far away, for those that do not mind, and on another scale
	from, far := 0, copyRows(rows)
	if len(rows) <= 16 && t.R.Intn(3) == 0 {
		from = 1<<24 + t.R.Intn(1<<28)
	}
	for i := range far {
		for j := range far[i] {
			far[i][j] += from
		}
	}
	fine := floats(rows)
	if t.R.Intn(2) == 0 {
		scale := math.Ldexp(1, t.R.Intn(20)-10)
		for i := range fine {
			for j := range fine[i] {
				fine[i][j] *= scale
			}
		}
	}
	idata := copyRows(far)
	fdata := floats(far)
	xdata := append([][]float64{}, fine...)
	for i := range xdata {
		xdata[i] = append([]float64{}, fine[i]...)
	}
	m := asMaps(far, ids)
	kept := func() bool {
		return fmt.Sprint(data) == fmt.Sprint(rows) && fmt.Sprint(fdata) == fmt.Sprint(floats(far)) &&
			fmt.Sprint(m) == fmt.Sprint(asMaps(far, ids)) && fmt.Sprint(idata) == fmt.Sprint(far) &&
			fmt.Sprint(xdata) == fmt.Sprint(fine)
	}
	run := func(op, what string, f func(Ev)) bool {
		e := Ev{"op": op, "k": k, "small": small, "by": what}
		return t.do(e, func() { f(e); e["kept"] = kept() })
	}
	// the names the rows are to be known by
	id := map[int]int{}
	off, step := t.R.Intn(50), 1+t.R.Intn(3)
	for i := range rows {
		id[i] = off + step*i
	}
	named := func(e Ev, cs []map[int][]float64) {
		back := make([]map[int][]float64, len(cs))
		for i, c := range cs {
			back[i] = map[int][]float64{}
			for r, v := range c {
				if (r-off)%step != 0 {
					r = -1
				} else {
					r = (r - off) / step
				}
				back[i][r] = v
			}
		}
		clusterEvF(e, back, far)
	}
	labels := func(e Ev) {
		g := cluster.KMeansI(k, fdata)
		cs := make([]map[int][]float64, k)
		for i := range cs {
			cs[i] = map[int][]float64{}
		}
		for i, c := range g {
			cs[c][i] = fdata[i]
		}
		clusterEvF(e, cs, far)
	}
	return run("kmeans", "KMeans", func(e Ev) { clusterEv(e, cluster.KMeans(k, idata), far) }) &&
		run("kmeans", "KMeansData", func(e Ev) {
			cs := cluster.KMeansData(k, m)
			anyColumns(floatClusters(cs), far, func(r [][]int) { clusterEv(e, cs, r) })
		}) &&
		run("kmeans", "KMeansF", func(e Ev) { clusterEvF(e, cluster.KMeansF(k, fdata, nil), far) }) &&
		run("kmeans", "KMeansF", func(e Ev) { named(e, cluster.KMeansF(k, fdata, id)) }) &&
		run("kmeans", "KMeansMuesliF", func(e Ev) { named(e, cluster.KMeansMuesliF(k, fdata, id)) }) &&
		run("kmeans", "KMeansMuesliF", func(e Ev) { clusterEvF(e, cluster.KMeansMuesliF(k, fdata, nil), far) }) &&
		run("kmeans", "KMeansMuesli", func(e Ev) {
			named(e, floatClusters(cluster.KMeansMuesli(k, idata, id)))
		}) &&
		run("kmeans", "KMeansFData", func(e Ev) {
			cs := cluster.KMeansFData(k, m)
			anyColumns(cs, far, func(r [][]int) { clusterEvF(e, cs, r) })
		}) &&
		run("kmeans", "KMeansI", labels) &&
		run("kmeansdata", "KMeansDataI", func(e Ev) { groupsEv(e, cluster.KMeansDataI(k, m), ids, from) }) &&
		run("oldkmeansf", "OldKMeansF", func(e Ev) {
			clusterEvX(e, cluster.OldKMeansF(k, xdata, metrics.EuclideanF), fine)
		}) &&
		run("kmode", "KMode", func(e Ev) { clusterEv(e, cluster.KMode(k, data), rows) }) &&
		run("kmode", "OldKMeans", func(e Ev) { clusterEv(e, cluster.OldKMeans(k, data), rows) }) &&
		run("kmedoid", "KMedoid", func(e Ev) { clusterEv(e, cluster.KMedoid(k, data), rows) })
}

// points around a few centres, some far away
func (t *T) points(n, dim, top int) [][]int {
	c := make([][]int, 1+t.R.Intn(4))
	for i := range c {
		c[i] = make([]int, dim)
		for j := range c[i] {
			c[i][j] = t.R.Intn(top + 1)
		}
	}
	spread := t.R.Intn(top/2 + 2)
	rows := make([][]int, n)
	for i := range rows {
		rows[i] = append([]int{}, c[t.R.Intn(len(c))]...)
		for j := range rows[i] {
			if t.R.Intn(6) == 0 {
				rows[i][j] = t.R.Intn(top + 1)
			} else if spread > 0 {
				rows[i][j] += t.R.Intn(spread)
			}
		}
	}
	return rows
}

func (t *T) metricCase(a, b []int) bool {
	e := Ev{"op": "metric", "a": a, "b": b}
	return t.do(e, func() {
		// any power of two further apart
		s := 1
		if t.R.Intn(4) == 0 {
			s = 1 << uint(t.R.Intn(24))
		}
		a, b := append([]int{}, a...), append([]int{}, b...)
		for i := range a {
			a[i], b[i] = a[i]*s, b[i]*s
		}
		e["e2"] = sq(metrics.Euclidean(a, b) / float64(s))
		f := floats([][]int{a, b})
		e["f2"] = sq(metrics.EuclideanF(f[0], f[1]) / float64(s))
		e["h"] = metrics.Hamming(a, b)
		e["hf"] = exact(metrics.HammingF(a, b))
	})
}

// sq is the square of a distance, which is whole; -1 otherwise.
func sq(d float64) int {
	r := math.Round(d * d)
	if !(d >= 0) || math.Abs(d*d-r) > 1e-6*math.Max(1, r/1e6) || r > 2e9 {
		return -1
	}
	return int(r)
}

func driveC17(t *T) {
	ok := true
	last := ""
	t.specLines(func(b []byte) {
		if !ok {
			return
		}
		var x struct {
			Rows   [][]int
			E2, Mp int
		}
		if json.Unmarshal(b, &x) != nil {
			panic("bad point set")
		}
		t.Case("point set, radius and density enumerated by TLC", fmt.Sprint(x))
		if s := fmt.Sprint(x.Rows); s != last {
			last = s
			t.Emit(Ev{"op": "case", "rows": x.Rows})
			k := 1 + t.R.Intn(len(x.Rows))
			if t.R.Intn(3) == 0 {
				ok = t.centreCase(x.Rows, k, true)
			}
		}
		ok = ok && t.densityCase(x.Rows, x.E2, x.Mp, t.R.Intn(3) == 0)
	})
	for i := 0; ok && i < t.Pick(120, 2500); i++ {
		n := 1 + t.R.Intn(8)
		small := true
		if t.R.Intn(3) == 0 {
			n, small = 9+t.R.Intn(30), false
		}
		if t.R.Intn(20) == 0 {
			n, small = 40+t.R.Intn(80), false
		}
		dim, top := 1+t.R.Intn(4), []int{1, 2, 4, 10, 40}[t.R.Intn(5)]
		if t.R.Intn(20) == 0 && n < 30 {
			dim = 5 + t.R.Intn(8)
			small = false
			if top > 10 {
				top = 10
			}
		}
		if n >= 40 && top > 2 {
			top = 2
		}
		rows := t.points(n, dim, top)
		t.Emit(Ev{"op": "case", "rows": rows})
		t.Case("random point set", fmt.Sprint(rows))
		for j := 0; ok && j < 3; j++ {
			e2 := []int{0, 1, 2, 4, 9, 30, 200}[t.R.Intn(7)]
			mp := 1 + t.R.Intn(5)
			if t.R.Intn(8) == 0 {
				mp = 1 + t.R.Intn(n+2)
			}
			ok = t.densityCase(rows, e2, mp, t.R.Intn(2) == 0)
		}
		k := 1 + t.R.Intn(n)
		if k > 5 {
			k = 1 + t.R.Intn(5)
			if t.R.Intn(4) == 0 {
				k = 1 + t.R.Intn(n)
			}
		}
		ok = ok && t.centreCase(rows, k, small && k <= 3)
	}
	// many points with little to tell them apart: partitions take many rounds
	for i := 0; ok && i < t.Pick(8, 40); i++ {
		n, dim, top := 40+t.R.Intn(140), 2+t.R.Intn(5), []int{1, 2, 5, 20}[i%4]
		rows := make([][]int, n)
		for j := range rows {
			rows[j] = make([]int, dim)
			for d := range rows[j] {
				rows[j][d] = t.R.Intn(top + 1)
				if top > 10 && t.R.Intn(2) == 0 {
					rows[j][d] = top - t.R.Intn(3)
				}
			}
		}
		t.Emit(Ev{"op": "case", "rows": rows})
		t.Case("many similar points", fmt.Sprint(rows))
		for _, c := range []struct {
			op string
			f  func(int, [][]int) []map[int][]int
		}{{"kmode", cluster.KMode}, {"kmode", cluster.OldKMeans}, {"kmedoid", cluster.KMedoid}} {
			for j := 0; ok && j < 2; j++ {
				k := 2 + t.R.Intn(5)
				data := copyRows(rows)
				e := Ev{"op": c.op, "k": k, "small": false}
				ok = t.do(e, func() {
					clusterEv(e, c.f(k, data), rows)
					e["kept"] = fmt.Sprint(data) == fmt.Sprint(rows)
				})
			}
		}
	}
	for i := 0; ok && i < t.Pick(150, 1500); i++ {
		n := t.R.Intn(7)
		top := 1 + t.R.Intn(30)
		if t.R.Intn(3) == 0 {
			top = []int{300, 5000, 17000}[t.R.Intn(3)]
			n = t.R.Intn(5)
		}
		a, b := make([]int, n), make([]int, n)
		for j := range a {
			a[j], b[j] = t.R.Intn(top), t.R.Intn(top)
			if t.R.Intn(3) == 0 {
				b[j] = a[j]
			}
		}
		t.Case("pair of points", fmt.Sprint(a, b))
		ok = t.metricCase(a, b)
	}
}
