// Command drv drives the real gospn code and records what it does as an ndjson trace, one event per
// public call (arguments, result, panic if any), for validation by the TLA+ trace specifications.
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"math/rand"
	"os"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/RenatoGeh/gospn/sys"
)

// Ev is one event.
type Ev map[string]interface{}

// T is a driver run.
type T struct {
	R        *rand.Rand
	Seed     int64
	Thorough bool
	Dir      string // scratch directory
	In       string // file with specification behaviours to replay
	w        *bufio.Writer
	mu       sync.Mutex
	n        int
	cases    int            // cases generated
	kinds    map[string]int // what was exercised, for the evidence
	distinct map[string]bool
	samples  []interface{}
	Finish   func() // writes out trace and statistics
}

var drivers = map[string]func(*T){}

// Emit writes an event and flushes it, so that the trace survives a crash of the code under test.
func (t *T) Emit(e Ev) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if _, ok := e["err"]; !ok {
		e["err"] = ""
	}
	b, err := json.Marshal(e)
	if err != nil {
		panic(err)
	}
	t.w.Write(b)
	t.w.WriteByte('\n')
	t.n++
	if t.n%64 == 0 {
		t.w.Flush()
	}
}

// Case counts a generated case of a kind, distinct by key.
func (t *T) Case(kind, key string) {
	t.cases++
	t.kinds[kind]++
	if key != "" {
		t.distinct[kind+"|"+key] = true
	}
}

// Sample keeps a few cases for the evidence.
func (t *T) Sample(x interface{}) {
	if len(t.samples) < 3 {
		t.samples = append(t.samples, x)
	}
}

// Pick returns q in the quick tier and th in the thorough one.
func (t *T) Pick(q, th int) int {
	if t.Thorough {
		return th
	}
	return q
}

// hangAfter is how long a call that normally takes milliseconds may take before it counts as not
// returning.
var hangAfter = 60 * time.Second

// Call runs f, which calls the code under test, and returns "" or a description of the panic (or of
// the call not returning).
func Call(f func()) string {
	done := make(chan string, 1)
	go func() {
		defer func() {
			if r := recover(); r != nil {
				msg := fmt.Sprint(r)
				if len(msg) > 160 {
					msg = msg[:160]
				}
				done <- "panic: " + msg
				return
			}
		}()
		f()
		done <- ""
	}()
	tm := time.NewTimer(hangAfter)
	defer tm.Stop()
	select {
	case s := <-done:
		return s
	case <-tm.C:
		died("hang: no return after " + hangAfter.String())
		return "hang"
	}
}

// current is the run in progress.
var current *T

// died ends the trace, and the driver, with an event no specification has a step for: the code under
// test still runs and would get in the way of whatever comes next.
func died(why string) {
	buf := make([]byte, 1<<16)
	buf = buf[:runtime.Stack(buf, true)]
	if len(buf) > 6000 {
		buf = buf[:6000]
	}
	current.Emit(Ev{"op": "died", "err": why, "stderr": string(buf)})
	current.Finish()
	os.Exit(0)
}

// Hung tells whether the last call never returned: the driver must stop then.
func Hung(err string) bool { return strings.HasPrefix(err, "hang") }

func (t *T) finish(stats string) {
	t.w.Flush()
	if stats == "" {
		return
	}
	b, _ := json.Marshal(map[string]interface{}{
		"events": t.n, "cases": t.cases, "kinds": t.kinds, "distinct": len(t.distinct), "samples": t.samples,
	})
	os.WriteFile(stats, b, 0644)
}

func main() {
	id := flag.String("id", "", "property")
	seed := flag.Int64("seed", 1, "seed")
	tier := flag.String("tier", "quick", "tier")
	out := flag.String("out", "trace.ndjson", "trace")
	stats := flag.String("stats", "", "statistics")
	in := flag.String("in", "", "behaviours to replay")
	dir := flag.String("dir", "", "scratch directory")
	flag.Parse()
	d, ok := drivers[*id]
	if !ok {
		var ks []string
		for k := range drivers {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		fmt.Fprintln(os.Stderr, "no driver for", *id, ks)
		os.Exit(3)
	}
	f, err := os.Create(*out)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	t := &T{R: rand.New(rand.NewSource(*seed)), Seed: *seed, Thorough: *tier == "thorough", Dir: *dir, In: *in,
		w: bufio.NewWriterSize(f, 1<<16), kinds: map[string]int{}, distinct: map[string]bool{}}
	sys.Verbose = false
	if *id != "C26" && *seed%2 == 1 {
		// Telling what it does must not change what the library does.
		sys.SetLogFile(os.DevNull)
		sys.Verbose = true
	}
	// The library asks for a collection after many operations; that is only about memory.
	sys.MemConservative = false
	_ = runtime.NumCPU()
	// Keep what the library prints away from our stdout.
	devnull, _ := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	os.Stdout = devnull
	current = t
	t.Finish = func() {
		t.finish(*stats)
		f.Close()
	}
	d(t)
	t.Finish()
}
