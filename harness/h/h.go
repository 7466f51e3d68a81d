// Package h is the support library of the concrete harnesses. A harness exercises the real code of
// the repository: it searches for inputs that witness the failure of an obligation, and it is the
// bounded stand-in for the functions that the verifier can't reach.
package h

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"
)

// Failure is a failing input found against the real code.
type Failure struct {
	Clause string `json:"clause"`
	Input  string `json:"input"`
	Detail string `json:"detail"`
}

// H is the context of a run.
type H struct {
	Rand    *rand.Rand
	Tier    string
	Seed    int64
	Scratch string

	mu       sync.Mutex
	out      string
	evals    int
	distinct map[uint64]bool
	clauses  map[string]int
	samples  []string
	failures []Failure
	input    string
	since    time.Time
	start    time.Time
	bounds   []string
	merged   int
}

// Main runs the harness.
func Main(f func(*H)) {
	h := &H{distinct: map[uint64]bool{}, clauses: map[string]int{}, start: time.Now(), since: time.Now()}
	flag.StringVar(&h.Tier, "tier", "quick", "quick, thorough or search")
	flag.Int64Var(&h.Seed, "seed", 1, "seed")
	flag.StringVar(&h.out, "out", "", "output file")
	flag.StringVar(&h.Scratch, "scratch", "", "scratch directory")
	limit := flag.Duration("case-limit", 60*time.Second, "time limit of one case")
	flag.Parse()
	h.Rand = rand.New(rand.NewSource(h.Seed))
	go func() {
		for {
			time.Sleep(time.Second)
			h.mu.Lock()
			if time.Since(h.since) > *limit {
				h.failures = append(h.failures, Failure{"terminates", h.input, fmt.Sprintf("no answer in %s", *limit)})
				h.write()
				os.Exit(0)
			}
			h.mu.Unlock()
		}
	}()
	h.Case("setup", func() { f(h) })
	h.mu.Lock()
	h.write()
}

func (h *H) write() {
	type report struct {
		Evaluations int            `json:"evaluations"`
		Distinct    int            `json:"distinct"`
		Clauses     map[string]int `json:"clauses"`
		Samples     []string       `json:"samples"`
		Failures    []Failure      `json:"failures"`
		Bounds      []string       `json:"bounds"`
		Secs        float64        `json:"secs"`
	}
	r := report{h.evals, len(h.distinct) + h.merged, h.clauses, h.samples, h.failures, h.bounds, time.Since(h.start).Seconds()}
	data, _ := json.MarshalIndent(r, "", " ")
	if h.out == "" {
		fmt.Println(string(data))
		return
	}
	if err := os.WriteFile(h.out, data, 0644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
}

// N selects a number of cases depending on the tier.
func (h *H) N(quick, thorough int) int {
	switch h.Tier {
	case "quick":
		return quick
	default:
		return thorough
	}
}

// Bound records a bound of the exploration.
func (h *H) Bound(format string, args ...interface{}) {
	h.bounds = append(h.bounds, fmt.Sprintf(format, args...))
}

// Case runs one case, whose input is described by the text. A crash of the code under test is a
// failure.
func (h *H) Case(input string, f func()) {
	h.mu.Lock()
	before := h.input
	h.input = input
	h.since = time.Now()
	h.mu.Unlock()
	defer func() {
		if r := recover(); r != nil {
			stack := string(debug.Stack())
			lines := strings.Split(stack, "\n")
			var keep []string
			for _, l := range lines {
				if strings.Contains(l, "/repo/") || strings.Contains(l, "generated") {
					keep = append(keep, strings.TrimSpace(l))
				}
			}
			if len(keep) > 6 {
				keep = keep[:6]
			}
			h.fail("doesn't crash", fmt.Sprintf("%v at %s", r, strings.Join(keep, "; ")))
		}
		h.mu.Lock()
		h.input = before
		h.since = time.Now()
		h.mu.Unlock()
	}()
	f()
}

func (h *H) fail(clause, detail string) {
	h.mu.Lock()
	defer h.mu.Unlock()
	n := 0
	for _, f := range h.failures {
		if f.Clause == clause {
			n++
		}
	}
	if n < 3 && len(h.failures) < 60 {
		in, d := h.input, detail
		if len(in) > 20000 {
			in = in[:20000]
		}
		if len(d) > 20000 {
			d = d[:20000]
		}
		h.failures = append(h.failures, Failure{clause, in, d})
	}
}

// Fail reports a failure.
func (h *H) Fail(clause, format string, args ...interface{}) {
	h.count(clause)
	h.fail(clause, fmt.Sprintf(format, args...))
}

func (h *H) count(clause string) {
	h.mu.Lock()
	defer h.mu.Unlock()
	h.evals++
	h.clauses[clause]++
	f := fnv.New64a()
	f.Write([]byte(clause))
	f.Write([]byte{0})
	f.Write([]byte(h.input))
	key := f.Sum64()
	if !h.distinct[key] {
		h.distinct[key] = true
		if h.clauses[clause] == 2 && len(h.samples) < 12 {
			in := h.input
			if len(in) > 300 {
				in = in[:300] + "..."
			}
			h.samples = append(h.samples, clause+": "+in)
		}
	}
}

// True checks a condition.
func (h *H) True(clause string, ok bool, format string, args ...interface{}) bool {
	h.count(clause)
	if !ok {
		h.fail(clause, fmt.Sprintf(format, args...))
	}
	return ok
}

// Equal checks that two values have the same representation.
func (h *H) Equal(clause string, got, want interface{}) bool {
	h.count(clause)
	g, w := fmt.Sprintf("%#v", got), fmt.Sprintf("%#v", want)
	if gs, ok := got.(string); ok {
		if ws, ok := want.(string); ok {
			g, w = gs, ws
		}
	}
	if g != w {
		h.fail(clause, fmt.Sprintf("got %s, expected %s", g, w))
		return false
	}
	return true
}

// Failed tells if there are failures already.
func (h *H) Failed() bool { return len(h.failures) > 0 }

// Keys returns the sorted keys of a map of booleans.
func Keys(m map[string]bool) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// Pick selects one of the given texts.
func (h *H) Pick(l ...string) string { return l[h.Rand.Intn(len(l))] }

// Merge adds what another program counted.
func (h *H) Merge(clauses map[string]int, distinct int, samples []string) {
	h.mu.Lock()
	defer h.mu.Unlock()
	for k, n := range clauses {
		h.clauses[k] += n
		h.evals += n
	}
	h.merged += distinct
	for _, s := range samples {
		if len(h.samples) < 12 {
			if len(s) > 300 {
				s = s[:300] + "..."
			}
			h.samples = append(h.samples, s)
		}
	}
}

// Report reports a failure found by another program.
func (h *H) Report(clause, input, detail string) {
	h.mu.Lock()
	before := h.input
	h.input = input
	h.mu.Unlock()
	h.fail(clause, detail)
	h.mu.Lock()
	h.input = before
	h.mu.Unlock()
}
