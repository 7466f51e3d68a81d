package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Output struct {
	Reports  []*Report `json:"reports"`
	LoadSecs float64   `json:"load_secs"`
	Secs     float64   `json:"secs"`
	Error    string    `json:"error,omitempty"`
	Dropped  []string  `json:"dropped,omitempty"`
}

type listFlag []string

func (l *listFlag) String() string     { return strings.Join(*l, ",") }
func (l *listFlag) Set(s string) error { *l = append(*l, s); return nil }

func main() {
	var specs, modules listFlag
	dir := flag.String("dir", "/repo", "directory of the module")
	patterns := flag.String("patterns", "./pkg/...,./cmd/...", "packages to load")
	prop := flag.String("prop", "", "property")
	fre := flag.String("func", "", "regular expression for the functions to verify")
	out := flag.String("out", "", "output file")
	verbose := flag.Bool("v", false, "verbose")
	timeout := flag.Int("timeout", 10, "timeout of each obligation, in seconds")
	keep := flag.String("keep", "", "directory to save the scripts")
	flag.Var(&specs, "spec", "contract file (can be repeated)")
	flag.Var(&modules, "module", "module path (can be repeated)")
	flag.Parse()
	start := time.Now()
	o := &Output{}
	w, err := load(*dir, strings.Split(*patterns, ","), specs, modules)
	if err != nil {
		o.Error = err.Error()
		finish(o, *out, *verbose)
		return
	}
	w.verbose, w.timeout, w.keep = *verbose, *timeout, *keep
	o.LoadSecs = time.Since(start).Seconds()
	o.Reports, o.Dropped = w.run(*prop, *fre)
	o.Secs = time.Since(start).Seconds()
	finish(o, *out, *verbose)
}

func finish(o *Output, out string, verbose bool) {
	data, _ := json.MarshalIndent(o, "", " ")
	if out != "" {
		if err := os.WriteFile(out, data, 0o644); err != nil {
			fatal("%v", err)
		}
	}
	if o.Error != "" {
		fmt.Println("ERROR", o.Error)
		os.Exit(2)
	}
	if out == "" || verbose {
		for _, r := range o.Reports {
			fmt.Printf("%-11s %s (%d obligations, %.1fs) %s\n", r.Status, r.Func, len(r.Obligations), r.Secs, r.Reason)
			for _, c := range r.Obligations {
				if c.Result != "proved" {
					fmt.Printf("    FAILED %s/%s: %s %s\n", c.Kind, c.Detail, c.Goal, c.Pos)
				}
			}
			if verbose {
				for k, n := range r.Notes {
					fmt.Printf("    %s: %s\n", k, strings.Join(n, " "))
				}
			}
		}
		fmt.Printf("load %.1fs total %.1fs\n", o.LoadSecs, o.Secs)
	}
}

func load(dir string, patterns []string, specs, modules []string) (*World, error) {
	w := &World{spec: newSpec(), modules: modules, pkgs: map[string]*types.Package{}, contracts: map[string]*Contract{}, funcs: map[string]*ssa.Function{}, dropped: map[string]bool{}}
	if len(w.modules) == 0 {
		w.modules = []string{"github.com/openshift-online/ocm-api-metamodel"}
	}
	var files []string
	for _, s := range specs {
		m, _ := filepath.Glob(s)
		sort.Strings(m)
		if len(m) == 0 {
			return nil, fmt.Errorf("no contracts in %s", s)
		}
		files = append(files, m...)
	}
	for _, f := range files {
		w.spec.parseFile(f)
	}
	for _, d := range w.spec.DefOrder {
		if def := w.spec.Defs[d]; def.Rec {
			if err := checkRec(w.spec, def); err != nil {
				return nil, err
			}
		}
	}
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: dir, Env: append(os.Environ(), "GOFLAGS=-mod=mod", "GOWORK=off")}
	pkgs, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, err
	}
	if len(pkgs) == 0 {
		return nil, fmt.Errorf("no packages")
	}
	for _, p := range pkgs {
		for _, e := range p.Errors {
			return nil, fmt.Errorf("package %s: %v", p.PkgPath, e)
		}
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	w.prog = prog
	w.fset = prog.Fset
	for _, p := range prog.AllPackages() {
		w.pkgs[p.Pkg.Path()] = p.Pkg
		mod := false
		for _, m := range w.modules {
			mod = mod || p.Pkg.Path() == m || strings.HasPrefix(p.Pkg.Path(), m+"/")
		}
		if mod {
			p.Build()
		}
	}
	for fn := range ssautil.AllFunctions(prog) {
		if fn.Synthetic != "" || fn.Object() == nil {
			continue
		}
		w.funcs[fullName(fn)] = fn
	}
	// members that aren't reachable from AllFunctions:
	for _, p := range prog.AllPackages() {
		for _, m := range p.Members {
			switch x := m.(type) {
			case *ssa.Function:
				if x.Synthetic == "" {
					w.funcs[fullName(x)] = x
				}
			case *ssa.Type:
				n, ok := x.Type().(*types.Named)
				if !ok {
					continue
				}
				for i := 0; i < n.NumMethods(); i++ {
					if f := prog.FuncValue(n.Method(i)); f != nil {
						w.funcs[fullName(f)] = f
					}
				}
			}
		}
	}
	for _, t := range w.spec.Order {
		c := w.spec.Contracts[t]
		c.Full = w.expand(t)
		w.contracts[c.Full] = c
	}
	return w, nil
}

var aliasRE = regexp.MustCompile(`^(\(?\*?)([a-zA-Z0-9_]+)\.`)

// expand replaces the alias in the name of a function by the path of the package.
func (w *World) expand(t string) string {
	m := aliasRE.FindStringSubmatch(t)
	if m == nil {
		return t
	}
	if p, ok := w.spec.Imports[m[2]]; ok {
		return m[1] + p + t[len(m[0])-1:]
	}
	return t
}

func hasProp(c *Contract, prop string) bool {
	if prop == "" {
		return true
	}
	for _, p := range c.Props {
		if p == prop {
			return true
		}
	}
	return false
}

func (w *World) run(prop, fre string) ([]*Report, []string) {
	var re *regexp.Regexp
	if fre != "" {
		re = regexp.MustCompile(fre)
	}
	var mu sync.Mutex
	reports := map[string]*Report{}
	var order []string
	var wg sync.WaitGroup
	sem := make(chan struct{}, 8)
	started := map[string]bool{}
	lemmaStarted := map[string]bool{}
	var startFunc func(full string, dep bool)
	var startLemma func(name string)
	after := func(r *Report) {
		mu.Lock()
		defer mu.Unlock()
		if fre != "" {
			return
		}
		for _, n := range r.Notes["contract"] {
			startFunc(n, true)
		}
		for _, l := range r.Lemmas {
			startLemma(l)
		}
	}
	startLemma = func(name string) {
		if lemmaStarted[name] {
			return
		}
		lemmaStarted[name] = true
		for _, l := range w.spec.Lemmas {
			if l.Name != name {
				continue
			}
			l := l
			order = append(order, "lemma "+name)
			wg.Add(1)
			go func() {
				defer wg.Done()
				sem <- struct{}{}
				r := w.verifyLemma(l)
				<-sem
				mu.Lock()
				reports["lemma "+name] = r
				mu.Unlock()
				after(r)
			}()
		}
	}
	startFunc = func(full string, dep bool) {
		if started[full] {
			return
		}
		started[full] = true
		c := w.contracts[full]
		order = append(order, full)
		if dep && prop != "" && c != nil && c.Heavy && !hasProp(c, prop) {
			reports[full] = &Report{Func: shortName(full), Status: "elsewhere", Reason: "verified by the checks of " + strings.Join(c.Props, ", ")}
			return
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- struct{}{}
			r := w.one(full, c)
			<-sem
			mu.Lock()
			reports[full] = r
			mu.Unlock()
			after(r)
		}()
	}
	mu.Lock()
	for _, t := range w.spec.Order {
		c := w.spec.Contracts[t]
		if re != nil {
			if re.MatchString(t) {
				startFunc(c.Full, false)
			}
			continue
		}
		if hasProp(c, prop) {
			startFunc(c.Full, false)
		}
	}
	for _, l := range w.spec.Lemmas {
		if re != nil {
			if re.MatchString("lemma " + l.Name) {
				startLemma(l.Name)
			}
			continue
		}
		for _, p := range l.Props {
			if prop == "" || p == prop {
				startLemma(l.Name)
			}
		}
		if prop == "" {
			startLemma(l.Name)
		}
	}
	mu.Unlock()
	wg.Wait()
	// Clauses of other properties that fail are dropped, and the functions of this property are
	// verified again without them:
	var dropped []string
	if prop != "" {
		for full, r := range reports {
			c := w.contracts[full]
			if c == nil || hasProp(c, prop) || r.Status != "failed" {
				continue
			}
			only := true
			for _, o := range r.Obligations {
				if o.Result == "proved" {
					continue
				}
				if o.Kind == "post" && o.Clause > 0 {
					k := fmt.Sprintf("%s#%d", full, o.Clause-1)
					w.dropped[k] = true
					dropped = append(dropped, k)
				} else {
					only = false
				}
			}
			if only {
				r.Status = "partial"
			}
		}
		if len(dropped) > 0 {
			sort.Strings(dropped)
			var again []string
			for full := range reports {
				if c := w.contracts[full]; c != nil && hasProp(c, prop) {
					again = append(again, full)
				}
			}
			var wg2 sync.WaitGroup
			for _, full := range again {
				full := full
				wg2.Add(1)
				go func() {
					defer wg2.Done()
					sem <- struct{}{}
					r := w.one(full, w.contracts[full])
					<-sem
					mu.Lock()
					reports[full] = r
					mu.Unlock()
				}()
			}
			wg2.Wait()
		}
	}
	var out []*Report
	for _, n := range order {
		out = append(out, reports[n])
	}
	sort.SliceStable(out, func(i, j int) bool { return out[i].Func < out[j].Func })
	return out, dropped
}

func (w *World) one(full string, c *Contract) *Report {
	if c.Extern {
		return &Report{Func: shortName(full), Kind: "extern", Props: c.Props, Status: "assumed"}
	}
	fn := w.funcs[full]
	if fn == nil || len(fn.Blocks) == 0 {
		if impls, ok := w.implementations(full); ok {
			return w.verifyImplementations(full, c, impls)
		}
	}
	if fn == nil {
		return &Report{Func: shortName(full), Kind: "function", Props: c.Props, Status: "missing", Reason: "the function doesn't exist"}
	}
	if c.Opaque {
		return &Report{Func: shortName(full), Kind: "function", Props: c.Props, Status: "trusted"}
	}
	return w.verifyFunc(fn, c)
}

var ifaceRE = regexp.MustCompile(`^\((.*)\.([A-Za-z0-9_]+)\)\.([A-Za-z0-9_]+)$`)

// implementations returns the functions of the module that implement the given interface method.
func (w *World) implementations(full string) ([]*ssa.Function, bool) {
	m := ifaceRE.FindStringSubmatch(full)
	if m == nil || w.pkgs[m[1]] == nil {
		return nil, false
	}
	o := w.pkgs[m[1]].Scope().Lookup(m[2])
	if o == nil {
		return nil, false
	}
	it, ok := o.Type().Underlying().(*types.Interface)
	if !ok {
		return nil, false
	}
	seen := map[*ssa.Function]bool{}
	var out []*ssa.Function
	for _, p := range w.prog.AllPackages() {
		mod := false
		for _, x := range w.modules {
			mod = mod || p.Pkg.Path() == x || strings.HasPrefix(p.Pkg.Path(), x+"/")
		}
		if !mod {
			continue
		}
		for _, n := range p.Pkg.Scope().Names() {
			tn, ok := p.Pkg.Scope().Lookup(n).(*types.TypeName)
			if !ok || types.IsInterface(tn.Type()) {
				continue
			}
			for _, t := range []types.Type{tn.Type(), types.NewPointer(tn.Type())} {
				if !types.Implements(t, it) {
					continue
				}
				obj, _, _ := types.LookupFieldOrMethod(t, true, p.Pkg, m[3])
				f, ok := obj.(*types.Func)
				if !ok {
					continue
				}
				fn := w.prog.FuncValue(f)
				if fn != nil && len(fn.Blocks) > 0 && !seen[fn] {
					seen[fn] = true
					out = append(out, fn)
				}
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return fullName(out[i]) < fullName(out[j]) })
	return out, true
}

// verifyImplementations verifies the implementations of an interface method against its contract.
func (w *World) verifyImplementations(full string, c *Contract, impls []*ssa.Function) *Report {
	r := &Report{Func: shortName(full), Kind: "interface", Props: c.Props, Status: "proved", Notes: map[string][]string{}}
	for _, fn := range impls {
		x := w.verifyFunc(fn, c)
		r.Obligations = append(r.Obligations, x.Obligations...)
		r.Secs += x.Secs
		r.Lemmas = append(r.Lemmas, x.Lemmas...)
		for k, n := range x.Notes {
			r.Notes[k] = append(r.Notes[k], n...)
		}
		if x.Status != "proved" && r.Status == "proved" {
			r.Status, r.Reason = x.Status, x.Func+": "+x.Reason
		}
	}
	return r
}
