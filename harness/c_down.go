package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	stdio "io"
	"net/http"
	"os"
	"path/filepath"
	"strings"

	"github.com/RenatoGeh/gospn/data"
	"github.com/RenatoGeh/gospn/io"
	"github.com/RenatoGeh/gospn/learn"
)

func init() { drivers["C28"] = driveC28 }

// fakeNet answers every request of the process, or fails as told.
type fakeNet struct {
	site  map[string]int    // URL -> contents
	fault map[string]string // URL -> what goes wrong
	asked int
	total int
}

type cutBody struct {
	r *bytes.Reader
}

func (c *cutBody) Read(p []byte) (int, error) {
	n, err := c.r.Read(p)
	if err == stdio.EOF {
		err = stdio.ErrUnexpectedEOF
	}
	return n, err
}
func (c *cutBody) Close() error { return nil }

func (f *fakeNet) RoundTrip(q *http.Request) (*http.Response, error) {
	f.asked++
	f.total++
	u := q.URL.String()
	r := &http.Response{StatusCode: 200, Status: "200 OK", Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{}, Request: q}
	u = strings.TrimSuffix(u, "?moved")
	id, ok := f.site[u]
	fault := f.fault[u]
	if ok && f.total%7 == 0 && u == q.URL.String() { // the server may send the client elsewhere first
		r.StatusCode, r.Status = 302, "302 Found"
		r.Header.Set("Location", u+"?moved")
		r.Body = stdio.NopCloser(strings.NewReader("Found"))
		return r, nil
	}
	if !ok {
		fault = "status"
	}
	b := contents(id)
	r.ContentLength = int64(len(b))
	switch fault {
	case "refused":
		return nil, errors.New("connection refused")
	case "status":
		codes := []int{404, 403, 429, 500, 503, 410, 502, 204, 206, 304}
		c := codes[f.total%len(codes)]
		r.StatusCode, r.Status = c, fmt.Sprintf("%d %s", c, http.StatusText(c))
		switch c {
		case 206: // only a part of it
			b = b[:len(b)/2]
		case 204, 304:
			b = nil
		default:
			b = []byte("404: Not Found")
		}
		r.ContentLength = int64(len(b))
		r.Body = stdio.NopCloser(bytes.NewReader(b))
	case "cut":
		k := []int{0, 1, len(b) / 2, len(b) - 1}[f.total%4]
		if len(b) < 2 {
			k = 0
		}
		r.Body = &cutBody{bytes.NewReader(b[:k])}
		if f.total/4%2 == 0 {
			r.ContentLength = -1
		}
	default:
		r.Body = stdio.NopCloser(bytes.NewReader(b))
		if f.total%3 == 0 { // a server need not tell the length
			r.ContentLength = -1
		}
	}
	return r, nil
}

// contents is a small data file (sometimes larger than a copy buffer) that tells its number.
func contents(id int) []byte {
	if id == 0 {
		return []byte("a file of the user's\n")
	}
	if id == 291 || id == 292 { // nothing at all, and a single byte
		return make([]byte, id-291)
	}
	var b bytes.Buffer
	fmt.Fprintf(&b, "var 0 1000\nvar 1 20000\n")
	n := 3 + id%5
	if id%7 == 1 {
		n = 9000
	}
	if id == 290 {
		n = 400000
	}
	for i := 0; i < n; i++ {
		fmt.Fprintf(&b, "%d %d\n", id, i)
	}
	return b.Bytes()
}

// which tells the contents of a parsed dataset: -1 none, -9 none of them.
func which(sc map[int]*learn.Variable, d []map[int]int, nosc bool) int {
	if d == nil && (sc == nil || nosc) {
		return -1
	}
	if len(d) == 0 || (!nosc && len(sc) != 2) {
		return -9
	}
	id := d[0][0]
	if id < 1 || id > 900 || bytes.Count(contents(id), []byte("\n")) != len(d)+2 {
		return -9
	}
	for i, r := range d {
		if len(r) != 2 || r[0] != id || r[1] != i {
			return -9
		}
	}
	return id
}

type downWorld struct {
	t     *T
	net   *fakeNet
	dir   string
	ids   map[string]int
	names int
}

func (w *downWorld) look() (out [][]interface{}) {
	out = [][]interface{}{}
	filepath.Walk(w.dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() {
			return nil
		}
		rel, _ := filepath.Rel(w.dir, p)
		b, _ := os.ReadFile(p)
		id := -9
		if v, ok := w.ids[string(b)]; ok {
			id = v
		}
		out = append(out, []interface{}{strings.Split(rel, "/"), id})
		return nil
	})
	return
}

const up = "https://raw.githubusercontent.com/RenatoGeh/datasets/master/"

type dataset struct {
	name string
	f    func() (map[int]*learn.Variable, []map[int]int)
}
type pairset struct {
	n, b int
	f    func() (map[int]*learn.Variable, []map[int]int, []map[int]int)
}

var datasets = []dataset{{"caltech", data.Caltech}, {"caltech_4bit", data.Caltech4Bit}, {"caltech_3bit", data.Caltech3Bit},
	{"digits", data.Digits}, {"digits_x", data.DigitsX}, {"olivetti", data.Olivetti}, {"olivetti_padded_u", data.OlivettiPadded},
	{"olivetti_3bit", data.Olivetti3Bit}, {"olivetti_big", data.OlivettiBig}, {"olivetti_small", data.OlivettiSmall}}
var pairsets = []pairset{{1000, 256, data.MNIST1000}, {2000, 256, data.MNIST2000}, {1000, 8, data.MNIST3Bits1000}, {2000, 8, data.MNIST3Bits2000}}

func dsURL(i int) string { return up + datasets[i].name + "/compiled/all.data" }

func (w *downWorld) get(to string, url int, over bool, fault string) bool {
	// the last part of the URL is the name
	name := fmt.Sprintf("u%d", url) + []string{"", ".data", ".tar.gz", ".d.x-y_z", "~", ".part"}[(url+w.names)%6]
	u := []string{"http://example.org/some/where/", "http://example.org/", "https://example.org/d.e/a/a/"}[(url+w.names)%3] + name
	w.net.site[u] = url
	w.net.fault = map[string]string{u: fault}
	var p string
	var parts []string
	ext := true
	switch to {
	case "a":
		p, parts = "a.data", []string{"a.data"}
	case "mine":
		p, parts = "mine.data", []string{"mine.data"}
	case "no":
		p, parts = "no/a.data", []string{"no", "a.data"}
	case "d":
		p, parts, ext = "d", []string{"d"}, false
	case "v":
		p, parts = "v1.0", []string{"v1.0"}
	case "h":
		p, parts = ".hidden", []string{".hidden"}
	}
	isDir := to == "d" || to == "v" || to == "h"
	switch w.t.R.Intn(4) {
	case 0:
		p = "./" + p
	case 1:
		p = filepath.Join(w.dir, p)
	case 2:
		if isDir {
			p += "/"
		} else {
			p = "d/../" + p
		}
	}
	e := Ev{"op": "get", "p": parts, "ext": ext, "name": name, "c": url, "over": over, "fault": fault, "ok": false}
	w.net.asked = 0
	var err error
	e["err"] = Call(func() { err = io.DownloadFromURL(u, p, over) })
	e["ok"] = err == nil
	e["asked"] = w.net.asked
	e["disk"] = w.look()
	w.t.Emit(e)
	return !Hung(e["err"].(string))
}

func (w *downWorld) set(i int, fault string) bool {
	u := dsURL(i)
	w.net.site[u] = 100 + i
	w.net.fault = map[string]string{u: fault}
	e := Ev{"op": "set", "f": []string{".cache", "data", datasets[i].name + ".data"}, "c": 100 + i, "fault": fault}
	var sc map[int]*learn.Variable
	var d []map[int]int
	e["err"] = Call(func() { sc, d = datasets[i].f() })
	e["got"] = which(sc, d, false)
	e["disk"] = w.look()
	w.t.Emit(e)
	return !Hung(e["err"].(string))
}

func (w *downWorld) pair(i int, f1, f2 string) bool {
	p := pairsets[i]
	a, b := fmt.Sprintf("test_%d_%d.data", p.b, p.n), fmt.Sprintf("train_%d_%d.data", p.b, p.n)
	ua, ub := up+"mnist/compiled/"+a, up+"mnist/compiled/"+b
	w.net.site[ua], w.net.site[ub] = 200+2*i, 201+2*i
	w.net.fault = map[string]string{ua: f1, ub: f2}
	e := Ev{"op": "pair", "f1": []string{".cache", "data", "mnist_" + a}, "f2": []string{".cache", "data", "mnist_" + b},
		"c1": 200 + 2*i, "c2": 201 + 2*i, "fault1": f1, "fault2": f2}
	var sc map[int]*learn.Variable
	var d1, d2 []map[int]int
	e["err"] = Call(func() { sc, d1, d2 = p.f() })
	e["got1"], e["got2"] = which(sc, d1, false), which(nil, d2, true)
	e["disk"] = w.look()
	w.t.Emit(e)
	return !Hung(e["err"].(string))
}

// downCase starts in a fresh directory with one file and one directory of the user's.
func (t *T) downCase(net *fakeNet, ids map[string]int, i int, play func(w *downWorld) bool) bool {
	dir := filepath.Join(t.Dir, fmt.Sprintf("h%d", i))
	os.MkdirAll(filepath.Join(dir, "d"), 0755)
	os.MkdirAll(filepath.Join(dir, "v1.0"), 0755)
	os.MkdirAll(filepath.Join(dir, ".hidden"), 0755)
	os.WriteFile(filepath.Join(dir, "mine.data"), contents(0), 0644)
	os.WriteFile(filepath.Join(dir, "a.data.part"), contents(0), 0644)
	if t.R.Intn(3) == 0 { // names that a download might use on its way
		for _, x := range []string{"mine.data.part", "a.data.tmp", "a.data~", "d/u1.part", "d/u2.data.part", ".a.data.part", "a.data.download", "a.data.part_"} {
			os.WriteFile(filepath.Join(dir, x), contents(0), 0644)
		}
	}
	if err := os.Chdir(dir); err != nil {
		panic(err)
	}
	w := &downWorld{t: t, net: net, dir: dir, ids: ids, names: t.R.Intn(6)}
	t.Emit(Ev{"op": "case", "disk": w.look(), "dirs": [][]string{{}, {"d"}, {"v1.0"}, {".hidden"}}})
	ok := play(w)
	os.Chdir(t.Dir)
	os.RemoveAll(dir)
	return ok
}

func driveC28(t *T) {
	net := &fakeNet{site: map[string]int{}, fault: map[string]string{}}
	http.DefaultTransport = net
	ids := map[string]int{}
	for i := 0; i < 300; i++ {
		ids[string(contents(i))] = i
	}
	type op struct {
		Op, To, Fault, Fault2 string
		Url, N                int
		Over                  bool
	}
	k := 0
	ok := true
	t.specLines(func(b []byte) {
		if !ok || (t.Thorough && t.R.Intn(15) != 0) {
			return
		}
		var h []op
		if err := json.Unmarshal(b, &h); err != nil {
			panic(err)
		}
		t.Case("history enumerated by TLC", "")
		// the model's datasets stand for any two, its pair for any
		perm, pr := t.R.Perm(len(datasets)), t.R.Intn(len(pairsets))
		ok = t.downCase(net, ids, k, func(w *downWorld) bool {
			for _, o := range h {
				r := true
				switch o.Op {
				case "get":
					r = w.get(o.To, o.Url, o.Over, o.Fault)
				case "set":
					r = w.set(perm[o.N], o.Fault)
				case "pair":
					r = w.pair(pr, o.Fault, o.Fault2)
				}
				if !r {
					return false
				}
			}
			return true
		})
		k++
	})
	faults := []string{"none", "none", "none", "refused", "status", "cut"}
	for i := 0; i < t.Pick(60, 1200) && ok; i++ {
		n := 2 + t.R.Intn(12)
		t.Case("random history", fmt.Sprint(i))
		ok = t.downCase(net, ids, k, func(w *downWorld) bool {
			for j := 0; j < n; j++ {
				f, g := faults[t.R.Intn(6)], faults[t.R.Intn(6)]
				r := true
				switch t.R.Intn(4) {
				case 0, 1:
					url := 1 + t.R.Intn(3)
					if i%10 == 0 && t.R.Intn(3) == 0 { // a few megabytes
						url = 290
					}
					if t.R.Intn(8) == 0 {
						url = 291 + t.R.Intn(2)
					}
					r = w.get([]string{"a", "d", "no", "mine", "v", "h"}[t.R.Intn(6)], url, t.R.Intn(2) == 0, f)
				case 2:
					r = w.set(t.R.Intn(len(datasets)), f)
				case 3:
					r = w.pair(t.R.Intn(len(pairsets)), f, g)
				}
				if !r {
					return false
				}
			}
			return true
		})
		k++
	}
}
