package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// World is what is shared by all the verification tasks.
type World struct {
	spec      *Spec
	prog      *ssa.Program
	fset      *token.FileSet
	modules   []string
	pkgs      map[string]*types.Package
	contracts map[string]*Contract
	funcs     map[string]*ssa.Function
	dropped   map[string]bool
	verbose   bool
	timeout   int
	keep      string
}

// Verifier is the state of one verification task.
type Verifier struct {
	curIter *Term // iterations of the loop whose invariant is being evaluated
	*World
	c            *Ctx
	init0        map[string]*Term
	registry     map[string]string
	heapType     map[string]types.Type
	written      map[string]bool
	readLog      map[string]string
	axioms       []string
	alloc0       *Term
	qn           int
	recs         map[string]*recInfo
	needAxioms   bool
	globals      map[string]int64
	typeIDs      map[string]int64
	typeByKey    map[string]types.Type
	onlyImpl     map[*types.TypeName]types.Type
	loopWrites   map[string]map[string]bool
	changed      bool
	usedHavocAll bool
	loopSeen     map[string]bool
	cands        map[string]*Cand
	candOrder    []string
	cur          *Contract
	curName      string
	curFn        *ssa.Function
	params       map[string]*Val
	entry        *State
	modLocs      []Loc
	notes        map[string]map[string]bool
	lemmasUsed   map[string]bool
	axiomsUsed   map[string]bool
	provingLemma string
}

func newVerifier(w *World) *Verifier {
	return &Verifier{World: w, registry: map[string]string{}, heapType: map[string]types.Type{}, loopWrites: map[string]map[string]bool{},
		cands: map[string]*Cand{}, notes: map[string]map[string]bool{}}
}

func (v *Verifier) reset() {
	v.c = newCtx()
	v.init0 = map[string]*Term{}
	v.written = map[string]bool{}
	v.readLog = nil
	v.axioms = nil
	v.qn = 0
	v.recs = map[string]*recInfo{}
	v.globals = map[string]int64{}
	v.typeIDs = map[string]int64{}
	v.typeByKey = map[string]types.Type{}
	v.onlyImpl = map[*types.TypeName]types.Type{}
	v.loopSeen = map[string]bool{}
	v.usedHavocAll = false
	v.lemmasUsed = map[string]bool{}
	v.axiomsUsed = map[string]bool{}
	v.c.declare("alloc0", "Int")
	v.alloc0 = konst("alloc0", "Int")
	v.c.fact(tLt(tInt(0), v.alloc0))
	v.modLocs = nil
}

func (v *Verifier) note(kind, what string) {
	if v.notes[kind] == nil {
		v.notes[kind] = map[string]bool{}
	}
	v.notes[kind][what] = true
}

func (v *Verifier) rootEnv(st *State) *Env {
	env := &Env{vars: map[string]*Val{}, st: st, old: v.entry, alloc0: v.alloc0}
	for k, x := range v.params {
		env.vars[k] = x
	}
	return env
}

// modExcept returns the condition that a reference is one of those that the function may modify.
func (v *Verifier) modExcept(key string) func(r *Term) *Term {
	if v.cur == nil {
		return nil
	}
	var ls []Loc
	for _, l := range v.modLocs {
		if l.key == key {
			ls = append(ls, l)
		}
	}
	if len(ls) == 0 {
		return nil
	}
	return func(r *Term) *Term {
		var cs []*Term
		for _, l := range ls {
			if l.all {
				return tTrue
			}
			cs = append(cs, tEq(r, l.ref))
		}
		return tOr(cs...)
	}
}

// genFunc generates the verification conditions of a function.
func (v *Verifier) genFunc(fn *ssa.Function, c *Contract) {
	v.reset()
	v.cur, v.curFn = c, fn
	v.curName = shortName(fullName(fn))
	st := &State{heaps: map[string]*Term{}, alloc: v.alloc0}
	v.entry = st.clone()
	v.params = map[string]*Val{}
	v.paramNames(c, len(fn.Params))
	f := &frame{fn: fn, path: fn.Name(), vals: map[ssa.Value]*Val{}}
	for i, p := range fn.Params {
		x := v.freshVal("p."+p.Name(), p.Type())
		v.c.fact(v.wf(x, v.alloc0))
		f.vals[p] = x
		v.params[c.Params[i]] = x
	}
	env := v.rootEnv(st)
	for _, gf := range v.spec.GlobalFacts {
		func() {
			defer func() {
				if e := recover(); e != nil {
					if _, ok := e.(specError); ok {
						return
					}
					panic(e)
				}
			}()
			v.c.fact(v.evalBool(env, gf.E))
		}()
	}
	for _, r := range c.Requires {
		v.c.fact(v.evalBool(env, r.E))
	}
	for _, r := range c.Insts {
		// consequences of the preconditions, proved first and used later
		t := v.evalBool(env, r.E)
		v.c.check(&Check{Name: v.curName, Kind: "apply", Detail: r.Label, Goal: r.Text}, t, nil)
		v.c.fact(t)
	}
	for _, m := range c.Modifies {
		v.modLocs = append(v.modLocs, v.locsOf(env, m)...)
	}
	// The initial heaps of everything that is known to be used, so that facts about them come first:
	rets := v.runFunc(f, tTrue, st)
	fin := &State{}
	res, g := v.mergeRets(rets, fin)
	if g == nil {
		g = tFalse
		return
	}
	post := v.rootEnv(fin)
	if len(c.Results) > 0 {
		v.bindResults(post, c, fn.Signature, res)
	}
	if c.Is != nil {
		want := v.eval(v.rootEnv(v.entry), c.Is)
		got, w2 := v.unify(res, want)
		v.c.check(&Check{Name: v.curName, Kind: "post", Detail: "result", Goal: "result == " + exprString(c.Is)}, tImp(g, v.equal(got, w2)), nil)
	}
	for i, e := range c.Ensures {
		t := v.evalBool(post, e.E)
		v.c.check(&Check{Name: v.curName, Kind: "post", Detail: e.Label, Goal: e.Text, Clause: i + 1}, tImp(g, t), nil)
	}
	if !c.ModAll && !c.NoFrame {
		var ks []string
		for k := range v.written {
			if !strings.HasPrefix(k, "VIS|") {
				ks = append(ks, k)
			}
		}
		sort.Strings(ks)
		for _, k := range ks {
			h, h0 := v.heapAny(fin, k), v.initHeap(k, v.registry[k])
			if h.String() == h0.String() {
				continue
			}
			r := v.c.freshConst("fr", "Int")
			cond := tAnd(g, tLt(mk("Int", "base", r), v.alloc0))
			if strings.HasPrefix(k, "M") {
				// a nil map can't be changed
				cond = tAnd(cond, tNot(tEq(r, tInt(0))))
			}
			if ex := v.modExcept(k); ex != nil {
				cond = tAnd(cond, tNot(ex(r)))
			}
			v.c.check(&Check{Name: v.curName, Kind: "frame", Detail: shortName(k), Goal: "nothing else changes in " + shortName(k)}, tImp(cond, tEq(tSelect(h, r), tSelect(h0, r))), nil)
		}
	}
	if c.Fresh && res != nil {
		t := v.term(res)
		if t.Sort == "Slice" {
			t = mk("Int", "sarr", t)
		}
		v.c.check(&Check{Name: v.curName, Kind: "post", Detail: "freshresult"}, tImp(g, tLe(v.alloc0, mk("Int", "base", t))), nil)
	}
	v.c.check(&Check{Name: v.curName, Kind: "vacuity", Detail: "some execution returns"}, tNot(g), nil)
}

// stepChecks generates the obligations of the step clauses of the contract.
func (v *Verifier) stepChecks(f *frame, l *loopInfo, g *Term, st *State, get func(ssa.Value) *Val) {
}

// addTheory adds the axioms and lemmas about the functions used.
func (v *Verifier) addTheory() {
	for {
		added := false
		for _, a := range v.spec.Axioms {
			if v.axiomsUsed[a.Name] || !v.mentions(a.E) {
				continue
			}
			v.axiomsUsed[a.Name] = true
			added = true
			if t := v.closed(nil, a.E, nil); t != "" {
				v.axioms = append(v.axioms, t)
			}
		}
		for _, l := range v.spec.Lemmas {
			if v.provingLemma != "" {
				if l.Name == v.provingLemma {
					break // only earlier lemmas can be used
				}
			}
			if v.lemmasUsed[l.Name] || v.hidden(l.Name) {
				continue
			}
			need := l.E
			if len(l.Trig) > 0 {
				any := false
				for _, tr := range l.Trig {
					any = any || v.mentionsAll(&ECall{Fn: &EIdent{"trig"}, Args: tr})
				}
				if !any {
					continue
				}
			} else if !v.mentions(need) {
				continue
			}
			v.lemmasUsed[l.Name] = true
			added = true
			if t := v.closed(l.Params, l.E, l.Trig); t != "" {
				v.axioms = append(v.axioms, t)
				// The unfoldings of recursive functions contain their limited version:
				if len(l.Trig) > 0 && strings.Contains(t, "(r!") {
					v.axioms = append(v.axioms, strings.ReplaceAll(t, "(r!", "(rl!"))
				}
			}
		}
		if !added {
			return
		}
	}
}

// hidden tells if the function being verified doesn't use the lemma or the definition.
func (v *Verifier) hidden(name string) bool {
	if v.cur != nil {
		for _, n := range v.cur.Hide {
			if n == name {
				return true
			}
		}
	}
	return false
}

// closed evaluates a formula universally quantified over its parameters and over the heaps it reads.
func (v *Verifier) closed(params []Param, e Expr, trig [][]Expr) string {
	heaps := []string{}
	sorts := map[string]string{}
	for {
		st := &State{heaps: map[string]*Term{}, alloc: v.alloc0}
		other := &State{heaps: map[string]*Term{}, alloc: v.alloc0, alt: true}
		env := &Env{vars: map[string]*Val{}, st: st, old: other, alloc0: v.alloc0}
		var decl []string
		for _, p := range params {
			v.qn++
			x, bs := v.bindParam(p.Name, p.Type, fmt.Sprintf("%s?%d", p.Name, v.qn))
			env.vars[p.Name] = x
			for _, b := range bs {
				decl = append(decl, fmt.Sprintf("(%s %s)", b[0], b[1]))
			}
		}
		for i, h := range heaps {
			n := fmt.Sprintf("hq!%d", i)
			if strings.HasPrefix(h, "alt:") {
				other.heaps[h[4:]] = konst(n, sorts[h])
			} else {
				st.heaps[h] = konst(n, sorts[h])
			}
			decl = append(decl, fmt.Sprintf("(%s %s)", n, sorts[h]))
		}
		before := v.readLog
		v.readLog = map[string]string{}
		body := v.evalBool(env, e)
		var ts []string
		for _, tr := range trig {
			ts = append(ts, v.pattern(env, tr))
		}
		reads := v.readLog
		v.readLog = before
		grown := false
		var ks []string
		for h := range reads {
			ks = append(ks, h)
		}
		sort.Strings(ks)
		for _, h := range ks {
			if _, ok := sorts[h]; !ok {
				sorts[h] = reads[h]
				heaps = append(heaps, h)
				grown = true
			}
		}
		if grown {
			continue
		}
		if len(decl) == 0 {
			return body.String()
		}
		if len(ts) > 0 {
			return fmt.Sprintf("(forall (%s) (! %s %s))", strings.Join(decl, " "), body, strings.Join(ts, " "))
		}
		return fmt.Sprintf("(forall (%s) %s)", strings.Join(decl, " "), body)
	}
}

func (v *Verifier) pattern(env *Env, tr []Expr) string {
	var ts []string
	for _, t := range tr {
		ts = append(ts, v.eval(env, t).Term.String())
	}
	return fmt.Sprintf(":pattern (%s)", strings.Join(ts, " "))
}

func (v *Verifier) defUsed(name string) (known, used bool) {
	d, ok := v.spec.Defs[name]
	if !ok {
		return false, false
	}
	if d.Fun {
		return true, v.c.declSet["f!"+name]
	}
	if d.Rec {
		return true, v.c.declSet["r!"+name]
	}
	return false, false
}

// mentions tells whether the expression uses some function that is already used.
func (v *Verifier) mentions(e Expr) bool {
	any := false
	walkExpr(v.spec, e, map[string]bool{}, func(n string) {
		if k, u := v.defUsed(n); k && u {
			any = true
		}
	})
	return any
}

func (v *Verifier) mentionsAll(e Expr) bool {
	all := true
	walkExpr(v.spec, e, map[string]bool{}, func(n string) {
		if k, u := v.defUsed(n); k && !u {
			all = false
		}
	})
	return all
}

func walkExpr(s *Spec, e Expr, seen map[string]bool, f func(name string)) {
	switch x := e.(type) {
	case *EIdent:
		if d, ok := s.Defs[x.Name]; ok && !seen[x.Name] {
			seen[x.Name] = true
			f(x.Name)
			if !d.Fun {
				walkExpr(s, d.Body, seen, f)
			}
		}
	case *ESel:
		walkExpr(s, x.X, seen, f)
	case *EIndex:
		walkExpr(s, x.X, seen, f)
		walkExpr(s, x.I, seen, f)
	case *ECall:
		walkExpr(s, x.Fn, seen, f)
		for _, a := range x.Args {
			walkExpr(s, a, seen, f)
		}
	case *EUn:
		walkExpr(s, x.X, seen, f)
	case *EBin:
		walkExpr(s, x.X, seen, f)
		walkExpr(s, x.Y, seen, f)
	case *ECond:
		walkExpr(s, x.C, seen, f)
		walkExpr(s, x.A, seen, f)
		walkExpr(s, x.B, seen, f)
	case *EQuant:
		for _, q := range x.Vars {
			walkExpr(s, q.Lo, seen, f)
			walkExpr(s, q.Hi, seen, f)
		}
		walkExpr(s, x.Body, seen, f)
	case *ELet:
		walkExpr(s, x.X, seen, f)
		walkExpr(s, x.Body, seen, f)
	}
}

// checkRec verifies syntactically that a recursive definition is well founded: the body is a
// conditional on some integer parameter n being not positive, and every call of itself is in the
// other branch and passes n-1; or on some list parameter l being empty, and every call passes
// initof(l). Definitions that don't call themselves are functions with that definition.
func checkRec(s *Spec, d *Def) error {
	self := false
	walkExpr(s, d.Body, map[string]bool{}, func(n string) { self = self || n == d.Name })
	if !self {
		return nil
	}
	c, ok := d.Body.(*ECond)
	if !ok {
		return fmt.Errorf("the body of %s isn't a conditional", d.Name)
	}
	b, ok := c.C.(*EBin)
	if !ok || b.Op != "<=" && b.Op != "==" {
		return fmt.Errorf("the condition of %s isn't n <= 0 or l == empty", d.Name)
	}
	id, ok := b.X.(*EIdent)
	z, ok2 := b.Y.(*EInt)
	e, ok3 := b.Y.(*EIdent)
	structural := b.Op == "=="
	if !ok || !structural && (!ok2 || z.N != 0) || structural && (!ok3 || e.Name != "empty" && e.Name != "sempty") {
		return fmt.Errorf("the condition of %s isn't n <= 0 or l == empty", d.Name)
	}
	pos := -1
	for i, p := range d.Params {
		if p.Name == id.Name {
			pos = i
		}
	}
	if pos < 0 {
		return fmt.Errorf("%s isn't a parameter of %s", id.Name, d.Name)
	}
	if k := d.Params[pos].Type.Name; structural && k != "list" && k != "slist" || !structural && k != "int" {
		return fmt.Errorf("parameter %s of %s isn't an integer or a list", id.Name, d.Name)
	}
	var err error
	var walk func(e Expr)
	walk = func(e Expr) {
		switch x := e.(type) {
		case *ECall:
			if fn, ok := x.Fn.(*EIdent); ok {
				if fn.Name == d.Name {
					ok := false
					if pos < len(x.Args) {
						if m, is := x.Args[pos].(*ECall); is && structural && len(m.Args) == 1 {
							f, isF := m.Fn.(*EIdent)
							a, isA := m.Args[0].(*EIdent)
							ok = isF && isA && f.Name == "initof" && a.Name == id.Name
						}
						if m, is := x.Args[pos].(*EBin); is && !structural && m.Op == "-" {
							a, ia := m.X.(*EIdent)
							o, io := m.Y.(*EInt)
							ok = ia && io && a.Name == id.Name && o.N == 1
						}
					}
					if !ok {
						err = fmt.Errorf("recursive call of %s doesn't decrease %s", d.Name, id.Name)
					}
				} else if o, ok := s.Defs[fn.Name]; ok && !o.Fun {
					// other definitions must not call this one
					walkExpr(s, o.Body, map[string]bool{}, func(n string) {
						if n == d.Name {
							err = fmt.Errorf("mutual recursion of %s and %s", d.Name, fn.Name)
						}
					})
				}
			} else {
				walk(x.Fn)
			}
			for _, a := range x.Args {
				walk(a)
			}
		case *ESel:
			walk(x.X)
		case *EIndex:
			walk(x.X)
			walk(x.I)
		case *EUn:
			walk(x.X)
		case *EBin:
			walk(x.X)
			walk(x.Y)
		case *ECond:
			walk(x.C)
			walk(x.A)
			walk(x.B)
		case *EQuant:
			walk(x.Body)
		case *ELet:
			if x.Name == id.Name {
				err = fmt.Errorf("%s is shadowed", id.Name)
			}
			walk(x.X)
			walk(x.Body)
		}
	}
	base := false
	walkExpr(s, c.A, map[string]bool{}, func(n string) { base = base || n == d.Name })
	if base {
		return fmt.Errorf("recursive call in the base case of %s", d.Name)
	}
	walk(c.B)
	return err
}

// genLemma generates the proof obligation of a lemma.
func (v *Verifier) genLemma(l *Lemma) {
	v.reset()
	v.cur, v.curFn = nil, nil
	v.curName = "lemma " + l.Name
	v.provingLemma = l.Name
	st := &State{heaps: map[string]*Term{}, alloc: v.alloc0}
	v.entry = &State{heaps: map[string]*Term{}, alloc: v.alloc0, alt: true}
	v.params = map[string]*Val{}
	for _, p := range l.Params {
		x, bs := v.bindParam(p.Name, p.Type, v.c.fresh(p.Name))
		for _, b := range bs {
			v.c.declare(b[0], b[1])
		}
		v.params[p.Name] = x
	}
	env := v.rootEnv(st)
	goal := v.evalBool(env, l.E)
	if l.Induct != "" {
		n := v.params[l.Induct].Term
		prev, more := ival(tSub(n, tInt(1))), tLt(tInt(0), n)
		switch n.Sort {
		case "LI":
			prev, more = &Val{K: "list", Term: mk("LI", "li.init", n)}, tNot(tEq(n, konst("li.nil", "LI")))
		case "LS":
			prev, more = &Val{K: "slist", Term: mk("LS", "ls.init", n)}, tNot(tEq(n, konst("ls.nil", "LS")))
		}
		// induction hypothesis, for any value of the other parameters
		e2 := v.rootEnv(st)
		var decl []string
		for _, p := range l.Params {
			if p.Name == l.Induct {
				continue
			}
			v.qn++
			x, bs := v.bindParam(p.Name, p.Type, fmt.Sprintf("%s?%d", p.Name, v.qn))
			e2.vars[p.Name] = x
			for _, b := range bs {
				decl = append(decl, fmt.Sprintf("(%s %s)", b[0], b[1]))
			}
		}
		e2.vars[l.Induct] = prev
		h := v.evalBool(e2, l.E)
		var ts []string
		for _, tr := range l.Trig {
			ts = append(ts, v.pattern(e2, tr))
		}
		body := h.String()
		if len(decl) > 0 {
			if len(ts) > 0 {
				// the limited version of the functions appears in the unfoldings
				pat := strings.Join(ts, " ")
				lim := strings.ReplaceAll(pat, "(r!", "(rl!")
				body = fmt.Sprintf("(forall (%s) (! %s %s %s))", strings.Join(decl, " "), body, pat, lim)
			} else {
				body = fmt.Sprintf("(forall (%s) %s)", strings.Join(decl, " "), body)
			}
		}
		v.c.fact(tImp(more, &Term{Op: body, Sort: "Bool"}))
		// the instance for the same values of the other parameters, with the functions unfolded
		e3 := v.rootEnv(st)
		e3.vars[l.Induct] = prev
		v.c.fact(tImp(more, v.evalBool(e3, l.E)))
	}
	v.c.check(&Check{Name: v.curName, Kind: "lemma", Detail: l.Name, Goal: l.Text}, goal, nil)
}
