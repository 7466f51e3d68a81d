package main

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Report struct {
	Func        string              `json:"func"`
	Kind        string              `json:"kind"`
	Props       []string            `json:"props"`
	Status      string              `json:"status"` // proved, failed, unsupported, missing, trusted
	Reason      string              `json:"reason,omitempty"`
	Obligations []*Check            `json:"obligations"`
	Notes       map[string][]string `json:"notes,omitempty"`
	Loops       int                 `json:"loops"`
	Invariants  int                 `json:"invariants"`
	Lemmas      []string            `json:"lemmas,omitempty"`
	Axioms      []string            `json:"axioms,omitempty"`
	Secs        float64             `json:"secs"`
	Pos         string              `json:"pos,omitempty"`
}

var z3bin = func() string {
	if p, err := exec.LookPath("z3-new"); err == nil {
		return p
	}
	return "z3"
}()

var solverSem = make(chan struct{}, 8)

const z3opts = "(set-option :auto_config false)\n(set-option :smt.mbqi false)\n(set-option :model false)\n"

func (v *Verifier) header() string {
	var sb strings.Builder
	sb.WriteString(v.c.prelude())
	for _, d := range v.c.decls {
		sb.WriteString(d)
		sb.WriteByte('\n')
	}
	for _, a := range v.axioms {
		fmt.Fprintf(&sb, "(assert %s)\n", a)
	}
	return sb.String()
}

// script prints the items; sel chooses the checks to run.
func (v *Verifier) script(sel func(it *item) bool, timeoutMS int, extra string) (string, []*item) {
	var sb strings.Builder
	sb.WriteString(z3opts)
	sb.WriteString(extra)
	fmt.Fprintf(&sb, "(set-option :timeout %d)\n", timeoutMS)
	sb.WriteString(v.header())
	var run []*item
	end := 0
	for i := range v.c.items {
		if it := &v.c.items[i]; it.kind == "check" && sel(it) {
			end = i
		}
	}
	for i := range v.c.items {
		if i > end {
			break
		}
		it := &v.c.items[i]
		if it.cand != nil && it.cand.dead {
			continue
		}
		switch it.kind {
		case "def":
			sb.WriteString(it.text)
			sb.WriteByte('\n')
		case "fact":
			fmt.Fprintf(&sb, "(assert %s)\n", it.text)
		case "check":
			if !sel(it) {
				continue
			}
			fmt.Fprintf(&sb, "(push)\n(assert (not %s))\n(check-sat)\n(get-info :reason-unknown)\n(pop)\n", goalString(it.goal))
			run = append(run, it)
		}
	}
	return sb.String(), run
}

// single prints a script for only one check.
func (v *Verifier) single(target *item, extra string) string {
	var sb strings.Builder
	sb.WriteString(extra)
	sb.WriteString(v.header())
	for i := range v.c.items {
		it := &v.c.items[i]
		if it == target {
			fmt.Fprintf(&sb, "(assert (not %s))\n(check-sat)\n", goalString(it.goal))
			break
		}
		if it.cand != nil && it.cand.dead {
			continue
		}
		switch it.kind {
		case "def":
			sb.WriteString(it.text)
			sb.WriteByte('\n')
		case "fact":
			fmt.Fprintf(&sb, "(assert %s)\n", it.text)
		}
	}
	return sb.String()
}

func runSolver(bin string, args []string, script string, limit time.Duration) ([]string, float64, string) {
	solverSem <- struct{}{}
	defer func() { <-solverSem }()
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	start := time.Now()
	cmd := exec.CommandContext(ctx, bin, args...)
	cmd.Stdin = strings.NewReader(script)
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	_ = cmd.Run()
	var res []string
	errs := ""
	for _, l := range strings.Split(out.String(), "\n") {
		l = strings.TrimSpace(l)
		switch {
		case l == "sat" || l == "unsat" || l == "unknown" || l == "timeout":
			res = append(res, l)
		case strings.HasPrefix(l, "(:reason-unknown"):
			if n := len(res); n > 0 && res[n-1] == "unknown" && (strings.Contains(l, "timeout") || strings.Contains(l, "canceled") || strings.Contains(l, "resource")) {
				res[n-1] = "timeout"
			}
		case strings.Contains(l, "error"):
			if errs == "" {
				errs = l
			}
		}
	}
	return res, time.Since(start).Seconds(), errs
}

func (v *Verifier) dump(name, script string) {
	if v.keep == "" {
		return
	}
	_ = os.MkdirAll(v.keep, 0o755)
	_ = os.WriteFile(filepath.Join(v.keep, sanitize(name)+".smt2"), []byte(script), 0o644)
}

type solverError struct{ msg string }

// houdini removes the loop invariant candidates that aren't inductive. The loops are treated in
// order, because what holds at the entry of a loop depends on what holds after the previous ones,
// till a pass over all the loops removes nothing.
func (v *Verifier) houdini() {
	var loops []string
	last := map[string]int{}
	first := map[*Cand]int{}
	for i, it := range v.c.items {
		if it.cand == nil {
			continue
		}
		if _, ok := first[it.cand]; !ok {
			first[it.cand] = i
		}
		if it.kind == "check" {
			if _, ok := last[it.cand.loop]; !ok {
				loops = append(loops, it.cand.loop)
			}
			last[it.cand.loop] = i
		}
	}
	// number of live candidates that the checks of the loop may use:
	alive := func(loop string) int {
		n := 0
		for c, i := range first {
			if !c.dead && i <= last[loop] {
				n++
			}
		}
		return n
	}
	done := map[string]int{}
	for pass := 0; pass < 60; pass++ {
		changed := false
		for n, loop := range loops {
			for round := 0; round < 100; round++ {
				if k, ok := done[loop]; ok && k == alive(loop) {
					break
				}
				if !v.houdiniLoop(loop, fmt.Sprintf("%d-%d-%d", pass, n, round)) {
					done[loop] = alive(loop)
					break
				}
				changed = true
			}
		}
		if !changed {
			return
		}
	}
}

// houdiniLoop checks the candidates of a loop once, and tells if some was removed.
func (v *Verifier) houdiniLoop(loop, round string) bool {
	run, res := v.runCands(loop, round)
	// first those that are refuted; those that need more time are tried again only when
	// nothing else changes, as without the refuted ones they may be refuted too
	killed := false
	var slow []*item
	for i, it := range run {
		if i < len(res) && res[i] == "unsat" || it.cand.dead {
			continue
		}
		if it.cand.user && i < len(res) && res[i] == "timeout" {
			slow = append(slow, it)
			continue
		}
		v.kill(it, round)
		killed = true
	}
	if !killed && len(slow) > 0 {
		ok := make([]bool, len(slow))
		var wg sync.WaitGroup
		for i := range slow {
			i := i
			wg.Add(1)
			go func() {
				defer wg.Done()
				ok[i] = v.retry(slow[i], 6)
			}()
		}
		wg.Wait()
		for i, it := range slow {
			if !ok[i] && !it.cand.dead {
				v.kill(it, round)
				killed = true
			}
		}
	}
	return killed
}

func (v *Verifier) kill(it *item, round string) {
	it.cand.dead = true
	if v.verbose {
		fmt.Printf("    round %s: %s %s [%s] dropped\n", round, it.check.Kind, it.cand.label, it.cand.loop)
	}
}

// runCands checks the live candidates, in parallel chunks.
func (v *Verifier) runCands(loop, round string) (run []*item, res []string) {
	var all []*item
	for i := range v.c.items {
		it := &v.c.items[i]
		if it.kind == "check" && it.cand != nil && !it.cand.dead && it.cand.loop == loop {
			all = append(all, it)
		}
	}
	size := 24
	if len(all) < size*8 {
		size = len(all)/8 + 1
		if size < 6 {
			size = 6
		}
	}
	type chunk struct {
		run  []*item
		res  []string
		errs string
	}
	var chunks []*chunk
	for i := 0; i < len(all); i += size {
		j := i + size
		if j > len(all) {
			j = len(all)
		}
		chunks = append(chunks, &chunk{run: all[i:j]})
	}
	var wg sync.WaitGroup
	for n, ch := range chunks {
		n, ch := n, ch
		in := map[*item]bool{}
		for _, it := range ch.run {
			in[it] = true
		}
		s, _ := v.script(func(it *item) bool { return in[it] }, 2500, "")
		v.dump(fmt.Sprintf("%s-houdini%s-%d", v.curName, round, n), s)
		wg.Add(1)
		go func() {
			defer wg.Done()
			ch.res, _, ch.errs = runSolver(z3bin, []string{"-in"}, s, 300*time.Second)
		}()
	}
	wg.Wait()
	for _, ch := range chunks {
		if ch.errs != "" {
			panic(solverError{ch.errs})
		}
		for len(ch.res) < len(ch.run) {
			ch.res = append(ch.res, "unknown")
		}
		run = append(run, ch.run...)
		res = append(res, ch.res[:len(ch.run)]...)
	}
	return run, res
}

// retry tries harder to prove one check.
func (v *Verifier) retry(it *item, secs int) bool {
	type cfg struct {
		name, bin string
		args      []string
		extra     string
	}
	cfgs := []cfg{
		{"z3", z3bin, []string{"-in", fmt.Sprintf("-T:%d", secs)}, z3opts},
		{"z3 seed 7", z3bin, []string{"-in", fmt.Sprintf("-T:%d", secs)}, z3opts + "(set-option :smt.random_seed 7)\n(set-option :smt.arith.solver 2)\n"},
		{"z3 4.8", "z3", []string{"-in", fmt.Sprintf("-T:%d", secs)}, z3opts},
		{"cvc5", "cvc5", []string{"--lang=smt2.6", fmt.Sprintf("--tlimit=%d", secs*1000), "-"}, "(set-logic ALL)\n"},
	}
	var wg sync.WaitGroup
	var mu sync.Mutex
	ok := ""
	for _, c := range cfgs {
		c := c
		wg.Add(1)
		go func() {
			defer wg.Done()
			res, _, _ := runSolver(c.bin, c.args, v.single(it, c.extra), time.Duration(secs+5)*time.Second)
			if len(res) > 0 && res[0] == "unsat" {
				mu.Lock()
				if ok == "" {
					ok = c.name
				}
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	if ok != "" {
		it.check.Solver = ok
	}
	return ok != ""
}

func (v *Verifier) solve() {
	v.houdini()
	s, run := v.script(func(it *item) bool { return it.cand == nil }, v.timeout*1000, "")
	v.dump(v.curName, s)
	start := time.Now()
	res, secs, errs := runSolver(z3bin, []string{"-in"}, s, 400*time.Second)
	_ = start
	if errs != "" {
		panic(solverError{errs})
	}
	for i, it := range run {
		it.check.Secs = secs / float64(len(run))
		it.check.Solver = "z3"
		r := "unknown"
		if i < len(res) {
			r = res[i]
		}
		if it.check.Kind == "vacuity" {
			if r == "unsat" {
				it.check.Result = "failed"
			} else {
				it.check.Result = "proved"
			}
			continue
		}
		if r == "unsat" {
			it.check.Result = "proved"
			continue
		}
		limit := v.timeout * 2
		if r == "unknown" {
			limit = 4
		}
		if v.retry(it, limit) {
			it.check.Result = "proved"
		} else {
			it.check.Result = "failed"
		}
	}
}

// fixpoint generates the conditions until the sets of modified heaps are stable.
func (v *Verifier) generate(gen func()) {
	for i := 0; ; i++ {
		v.changed = false
		n := len(v.registry)
		v.loopSeenReset()
		gen()
		if !v.changed && !(v.usedHavocAll && len(v.registry) != n) {
			break
		}
		if i > 20 {
			unsup("no fixpoint")
		}
	}
	v.addTheory()
}

func (v *Verifier) loopSeenReset() {
	v.cands = map[string]*Cand{}
	v.candOrder = nil
}

func sortedKeys(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func (w *World) verifyFunc(fn *ssa.Function, c *Contract) *Report {
	r := &Report{Func: shortName(fullName(fn)), Kind: "function", Props: c.Props, Pos: w.fset.Position(fn.Pos()).String()}
	v := newVerifier(w)
	w.task(r, v, func() { v.generate(func() { v.genFunc(fn, c) }) })
	return r
}

func (w *World) verifyLemma(l *Lemma) *Report {
	r := &Report{Func: "lemma " + l.Name, Kind: "lemma", Props: l.Props}
	v := newVerifier(w)
	w.task(r, v, func() { v.generate(func() { v.genLemma(l) }) })
	return r
}

func (w *World) task(r *Report, v *Verifier, gen func()) {
	start := time.Now()
	defer func() {
		if e := recover(); e != nil {
			r.Status = "unsupported"
			switch x := e.(type) {
			case unsupported:
				r.Reason = x.msg
			case specError:
				r.Reason = "contract doesn't match the code: " + x.msg
			case solverError:
				r.Reason = "solver: " + x.msg
			default:
				if w.verbose {
					panic(e)
				}
				r.Reason = fmt.Sprint("internal: ", e)
			}
		}
		r.Secs = time.Since(start).Seconds()
		r.Notes = map[string][]string{}
		for k, m := range v.notes {
			r.Notes[k] = sortedKeys(m)
		}
	}()
	gen()
	v.solve()
	r.Status = "proved"
	for _, it := range v.c.items {
		if it.kind == "check" && it.cand == nil {
			r.Obligations = append(r.Obligations, it.check)
			if it.check.Result != "proved" {
				r.Status = "failed"
			}
		}
	}
	r.Loops = len(v.loopSeen)
	for _, c := range v.cands {
		if !c.dead {
			r.Invariants++
		}
	}
	r.Lemmas = sortedKeys(v.lemmasUsed)
	r.Axioms = sortedKeys(v.axiomsUsed)
}
