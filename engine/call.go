package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const maxInline = 12

// call executes a call. It returns the result and the guard after the call; a nil guard means that
// the call doesn't return.
func (v *Verifier) call(f *frame, cc ssa.CallCommon, ins *ssa.Call, g *Term, st *State, pos token.Pos) (*Val, *Term) {
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		return v.builtin(f, b.Name(), cc, g, st, pos), g
	}
	name := "d"
	if ins != nil {
		name = ins.Name()
	}
	var args []*Val
	if cc.IsInvoke() {
		recv := v.val(f, cc.Value)
		for _, a := range cc.Args {
			args = append(args, v.val(f, a))
		}
		return v.invoke(f, name, recv, cc.Method, args, g, st, pos)
	}
	for _, a := range cc.Args {
		args = append(args, v.val(f, a))
	}
	var fn *ssa.Function
	var bind []*Val
	if c := cc.StaticCallee(); c != nil {
		fn = c
		if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
			bind = v.val(f, mc).Bind
		}
	} else {
		x := v.val(f, cc.Value)
		fn, bind = x.Fn, x.Bind
	}
	if fn == nil {
		v.note("unknown-call", fmt.Sprintf("call of a function value in %s", f.fn))
		v.havocAll(st)
		return v.freshResult(name, cc.Signature(), g, st), g
	}
	return v.callFn(f, name, fn, bind, args, g, st, pos, cc)
}

func fullName(fn *ssa.Function) string {
	if o, ok := fn.Object().(*types.Func); ok {
		return o.FullName()
	}
	return fn.String()
}

func (v *Verifier) callFn(f *frame, name string, fn *ssa.Function, bind, args []*Val, g *Term, st *State, pos token.Pos, cc ssa.CallCommon) (*Val, *Term) {
	full := fullName(fn)
	if full == "fmt.Sprintf" {
		if r := v.sprintf(f, cc, args, st); r != nil {
			return r, g
		}
	}
	if fn.Synthetic == "" {
		if c := v.contracts[full]; c != nil {
			args, back := v.copyIn(fn, args, st)
			r := v.callContract(name, c, full, fn.Signature, args, g, st, pos)
			back()
			return r, g
		}
	}
	switch full {
	case "sort.Sort":
		v.sortSort(f, cc, args[0], g, st, pos)
		return nil, g
	case "os.Exit", "runtime.Goexit", "log.Fatal", "log.Fatalf":
		return nil, nil
	}
	inModule := fn.Pkg != nil && v.isModule(fn.Pkg.Pkg)
	if fn.Pkg == nil && fn.Synthetic != "" {
		if o, ok := fn.Object().(*types.Func); ok && v.isModule(o.Pkg()) {
			inModule = true
		}
		if strings.Contains(fn.Synthetic, "wrapper") || strings.Contains(fn.Synthetic, "thunk") || strings.Contains(fn.Synthetic, "bound") {
			if len(fn.Blocks) > 0 {
				inModule = true
			}
		}
	}
	if inModule && len(fn.Blocks) > 0 {
		for p := f; p != nil; p = p.parent {
			if p.fn == fn {
				unsup("recursive function %s without contract", full)
			}
		}
		if f.depth >= maxInline {
			unsup("functions nested too deep at %s", full)
		}
		v.note("inlined", full)
		nf := &frame{fn: fn, path: f.path + ">" + name + ":" + fn.Name(), vals: map[ssa.Value]*Val{}, depth: f.depth + 1, parent: f}
		for i, p := range fn.Params {
			nf.vals[p] = args[i]
		}
		for i, p := range fn.FreeVars {
			nf.vals[p] = bind[i]
		}
		rets := v.runFunc(nf, g, st.clone())
		return v.mergeRets(rets, st)
	}
	// External function without contract:
	v.note("extern", full)
	for _, a := range args {
		v.havocArg(a, st)
	}
	return v.freshResult(name, fn.Signature, g, st), g
}

// copyIn replaces the addresses of fields and elements given to a function under contract by those
// of cells with a copy of the value, which is copied back after the call. The function may only read
// and write through the pointer.
func (v *Verifier) copyIn(fn *ssa.Function, args []*Val, st *State) ([]*Val, func()) {
	var back []func()
	out := args
	for i, a := range args {
		if a == nil || a.Addr == nil || a.Term != nil || a.Fn != nil || i >= len(fn.Params) || len(fn.Blocks) == 0 || !onlyDeref(fn.Params[i]) {
			continue
		}
		addr := a.Addr
		ref := v.newObj(st, "copy")
		cell := v.cellAddr(addr.T, ref)
		v.storeAddr(st, cell, v.loadAddr(st, addr))
		if len(back) == 0 {
			out = append([]*Val{}, args...)
		}
		out[i] = &Val{T: a.T, Term: ref}
		v.note("copied", addr.Heap)
		back = append(back, func() {
			v.storeAddr(st, addr, v.loadAddr(st, cell))
		})
	}
	return out, func() {
		for _, b := range back {
			b()
		}
	}
}

// onlyDeref tells if the pointer is only used to load and store what it points to.
func onlyDeref(p *ssa.Parameter) bool {
	if p.Referrers() == nil {
		return false
	}
	for _, r := range *p.Referrers() {
		switch x := r.(type) {
		case *ssa.UnOp:
			if x.Op != token.MUL {
				return false
			}
		case *ssa.Store:
			if x.Addr != ssa.Value(p) || x.Val == ssa.Value(p) {
				return false
			}
		case *ssa.Call:
			fn := x.Call.StaticCallee()
			if fn == nil || fn == p.Parent() || len(fn.Blocks) == 0 {
				return false
			}
			for i, a := range x.Call.Args {
				if a == ssa.Value(p) && (i >= len(fn.Params) || !onlyDeref(fn.Params[i])) {
					return false
				}
			}
		case *ssa.DebugRef:
		default:
			return false
		}
	}
	return true
}

func (v *Verifier) mergeRets(rets []retInfo, st *State) (*Val, *Term) {
	if len(rets) == 0 {
		return nil, nil
	}
	var edges []edgeIn
	var gs []*Term
	for _, r := range rets {
		edges = append(edges, edgeIn{nil, r.guard, r.st})
		gs = append(gs, r.guard)
	}
	m := v.mergeStates(edges)
	st.heaps, st.alloc = m.heaps, m.alloc
	g := v.c.name("ret", tOr(gs...))
	n := len(rets[0].vals)
	if n == 0 {
		return nil, g
	}
	var outs []*Val
	for i := 0; i < n; i++ {
		var xs []*Val
		for _, r := range rets {
			xs = append(xs, r.vals[i])
		}
		outs = append(outs, v.nameVal("ret", v.mergeVals(gs, xs)))
	}
	if n == 1 {
		return outs[0], g
	}
	return &Val{Fields: outs}, g
}

func (v *Verifier) freshResult(name string, sig *types.Signature, g *Term, st *State) *Val {
	a := v.c.freshConst("allocC", "Int")
	v.c.fact(tLe(st.alloc, a))
	st.alloc = a
	return v.freshOut(name, sig, g, st)
}

func (v *Verifier) freshOut(name string, sig *types.Signature, g *Term, st *State) *Val {
	res := sig.Results()
	switch res.Len() {
	case 0:
		return nil
	case 1:
		x := v.freshVal("r."+name, res.At(0).Type())
		v.c.fact(tImp(g, v.wf(x, st.alloc)))
		return x
	}
	x := v.freshVal("r."+name, res)
	v.c.fact(tImp(g, v.wf(x, st.alloc)))
	return x
}

func (v *Verifier) havocKey(st *State, k string) {
	h := v.c.freshConst("HA", v.registry[k])
	st.heaps[k] = h
	v.written[k] = true
}

func (v *Verifier) havocAll(st *State) {
	v.usedHavocAll = true
	var ks []string
	for k := range v.registry {
		if !strings.HasPrefix(k, "VIS|") {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	a := v.c.freshConst("allocC", "Int")
	v.c.fact(tLe(st.alloc, a))
	st.alloc = a
	for _, k := range ks {
		v.havocKey(st, k)
		if w := v.heapWF(k, st.heaps[k], st.alloc); w != nil {
			v.c.fact(w)
		}
	}
}

// havocArg forgets what can be changed by an external function that receives the value.
func (v *Verifier) havocArg(a *Val, st *State) {
	if a.Addr != nil {
		_, es := arrayParts(a.Addr.Sort)
		if a.Addr.Idx != nil {
			_, es = arrayParts(es)
		}
		v.storeAddr(st, a.Addr, v.c.freshConst("ext", es))
		return
	}
	if a.T == nil || a.Term == nil {
		return
	}
	switch u := a.T.Underlying().(type) {
	case *types.Slice:
		if v.isComposite(u.Elem()) {
			return
		}
		for _, l := range v.sliceLoc(a) {
			v.havocLoc(st, l)
		}
	case *types.Map:
		for _, l := range v.mapLocs(a) {
			v.havocLoc(st, l)
		}
	case *types.Pointer:
		if v.isComposite(u.Elem()) {
			for _, l := range v.structLocs(u.Elem(), a.Term) {
				v.havocLoc(st, l)
			}
			return
		}
		if _, isArr := u.Elem().Underlying().(*types.Array); isArr {
			return
		}
		ad := v.cellAddr(u.Elem(), a.Term)
		_, es := arrayParts(ad.Sort)
		v.storeAddr(st, ad, v.c.freshConst("ext", es))
	}
}

// Loc is a set of locations that may be modified: one object of a heap, or all of them.
type Loc struct {
	key, sort string
	ref       *Term
	all       bool
}

func (v *Verifier) sliceLoc(x *Val) []Loc {
	u := x.T.Underlying().(*types.Slice)
	if v.isComposite(u.Elem()) {
		unsup("modification of slice of structs")
	}
	key := "E|" + typeKey(u.Elem())
	v.noteHeap(key, u.Elem())
	return []Loc{{key: key, sort: arraySort("Int", arraySort("Int", v.goSort(u.Elem()))), ref: mk("Int", "sarr", x.Term)}}
}

func (v *Verifier) mapLocs(x *Val) []Loc {
	dk, vk, ks, vs, _ := v.mapKeys(x)
	return []Loc{
		{key: dk, sort: arraySort("Int", arraySort(ks, "Bool")), ref: x.Term},
		{key: vk, sort: arraySort("Int", arraySort(ks, vs)), ref: x.Term},
	}
}

func (v *Verifier) structLocs(t types.Type, ref *Term) []Loc {
	var out []Loc
	if s, ok := t.Underlying().(*types.Struct); ok && !v.opaqueStruct(t) {
		for i := 0; i < s.NumFields(); i++ {
			fa := v.fieldAddr(t, ref, i)
			if fa.Addr == nil {
				out = append(out, v.structLocs(s.Field(i).Type(), fa.Term)...)
				continue
			}
			out = append(out, Loc{key: fa.Addr.Heap, sort: fa.Addr.Sort, ref: ref})
		}
	}
	for _, gh := range v.spec.Ghosts {
		gt, err := v.tryType(gh.Type)
		if err != nil || !types.Identical(gt, t) {
			continue
		}
		a := v.ghostAddr(gh, ref)
		out = append(out, Loc{key: a.Heap, sort: a.Sort, ref: ref})
	}
	return out
}

func (v *Verifier) havocLoc(st *State, l Loc) {
	h := v.heap(st, l.key, l.sort)
	v.registry[l.key] = l.sort
	if l.all {
		v.havocKey(st, l.key)
		return
	}
	_, es := arrayParts(l.sort)
	st.heaps[l.key] = v.c.name("Hc", tStore(h, l.ref, v.c.freshConst("hv", es)))
	v.written[l.key] = true
}

// locsOf evaluates a modifies location.
func (v *Verifier) locsOf(env *Env, e Expr) []Loc {
	switch x := e.(type) {
	case *ESel:
		c := v.eval(env, x.X)
		if c.T == nil {
			serr("modifies of specification value")
		}
		t, ptr := derefType(c.T)
		if !ptr || c.Term == nil {
			serr("modifies needs a pointer: %s", exprString(e))
		}
		if x.Name == "*" {
			return v.structLocs(t, c.Term)
		}
		if gh := v.ghostFor(t, x.Name); gh != nil {
			a := v.ghostAddr(gh, c.Term)
			return []Loc{{key: a.Heap, sort: a.Sort, ref: c.Term}}
		}
		s, ok := t.Underlying().(*types.Struct)
		if !ok {
			serr("modifies field of non struct")
		}
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == x.Name {
				fa := v.fieldAddr(t, c.Term, i)
				if fa.Addr == nil {
					return v.structLocs(s.Field(i).Type(), fa.Term)
				}
				return []Loc{{key: fa.Addr.Heap, sort: fa.Addr.Sort, ref: c.Term}}
			}
		}
		serr("type %s has no field %s", t, x.Name)
	case *EIndex:
		if x.I != nil {
			serr("modifies of single elements isn't supported")
		}
		c := v.eval(env, x.X)
		switch c.T.Underlying().(type) {
		case *types.Slice:
			return v.sliceLoc(c)
		case *types.Map:
			return v.mapLocs(c)
		}
	case *EUn:
		if x.Op == "*" {
			p := v.eval(env, x.X)
			pt := p.T.Underlying().(*types.Pointer)
			if v.isComposite(pt.Elem()) {
				return v.structLocs(pt.Elem(), p.Term)
			}
			a := v.cellAddr(pt.Elem(), p.Term)
			return []Loc{{key: a.Heap, sort: a.Sort, ref: p.Term}}
		}
	case *ECall:
		if id, ok := x.Fn.(*EIdent); ok && id.Name == "all" {
			s, ok := x.Args[0].(*ESel)
			if ok {
				if inner, ok := s.X.(*ESel); ok {
					t, _ := v.resolveType(exprToType(inner))
					ls := v.structLocs(t, tInt(0))
					var out []Loc
					for _, l := range ls {
						if s.Name == "*" || strings.HasSuffix(l.key, "."+s.Name) {
							l.all = true
							out = append(out, l)
						}
					}
					if len(out) == 0 {
						serr("no fields match %s", exprString(e))
					}
					return out
				}
			}
		}
		if id, ok := x.Fn.(*EIdent); ok && id.Name == "allof" {
			// all the maps or slices of the type of the expression
			c := v.eval(env, x.Args[0])
			var ls []Loc
			switch c.T.Underlying().(type) {
			case *types.Slice:
				ls = v.sliceLoc(c)
			case *types.Map:
				ls = v.mapLocs(c)
			case *types.Pointer:
				// all the cells of that type
				a := v.cellAddr(c.T.Underlying().(*types.Pointer).Elem(), c.Term)
				ls = []Loc{{key: a.Heap, sort: a.Sort, ref: c.Term}}
			}
			for i := range ls {
				ls[i].all = true
			}
			return ls
		}
	}
	serr("unsupported modifies %s", exprString(e))
	return nil
}

func (v *Verifier) paramNames(c *Contract, n int) {
	if len(c.Params) != n {
		serr("contract of %s has %d parameters but the function has %d", c.Target, len(c.Params), n)
	}
}

func (v *Verifier) callContract(name string, c *Contract, full string, sig *types.Signature, args []*Val, g *Term, st *State, pos token.Pos) *Val {
	v.note("contract", full)
	pre := st.clone()
	v.paramNames(c, len(args))
	env := &Env{vars: map[string]*Val{}, st: pre, old: pre, alloc0: pre.alloc}
	for i, p := range c.Params {
		env.vars[p] = args[i]
	}
	for _, r := range c.Requires {
		t := v.evalBool(env, r.E)
		if v.cur != nil && v.cur.AssumePre {
			v.note("assumed precondition", shortName(full)+": "+r.Text)
		} else {
			v.oblige("pre", fmt.Sprintf("precondition of %s: %s", shortName(full), r.Text), tImp(g, t), pos)
		}
		v.c.fact(tImp(g, t))
	}
	if c.ModAll {
		v.havocAll(st)
	}
	var locs []Loc
	for _, m := range c.Modifies {
		locs = append(locs, v.locsOf(env, m)...)
	}
	for _, l := range locs {
		v.havocLoc(st, l)
	}
	a := v.c.freshConst("allocC", "Int")
	v.c.fact(tLe(st.alloc, a))
	st.alloc = a
	var res *Val
	if c.Is != nil {
		res = v.eval(env, c.Is)
		rt := sig.Results().At(0).Type()
		res, _ = v.unify(res, v.zeroVal(rt))
		r2 := *res
		r2.T = rt
		res = v.nameVal("r."+name, &r2)
	} else {
		res = v.freshOut(name, sig, g, st)
	}
	post := &Env{vars: map[string]*Val{}, st: st, old: pre, alloc0: pre.alloc}
	for k, x := range env.vars {
		post.vars[k] = x
	}
	v.bindResults(post, c, sig, res)
	for i, e := range c.Ensures {
		if v.dropped[fmt.Sprintf("%s#%d", full, i)] {
			continue
		}
		v.c.fact(tImp(g, v.evalBool(post, e.E)))
	}
	return res
}

func (v *Verifier) bindResults(env *Env, c *Contract, sig *types.Signature, res *Val) {
	n := sig.Results().Len()
	if len(c.Results) == 0 {
		return
	}
	if len(c.Results) != n {
		serr("contract of %s has %d results but the function has %d", c.Target, len(c.Results), n)
	}
	if n == 1 {
		env.vars[c.Results[0]] = res
		return
	}
	for i, r := range c.Results {
		env.vars[r] = res.Fields[i]
	}
}

func (v *Verifier) invoke(f *frame, name string, recv *Val, m *types.Func, args []*Val, g *Term, st *State, pos token.Pos) (*Val, *Term) {
	t := v.c.resolve(recv.Term)
	if strings.HasPrefix(t.Op, "i") && len(t.Args) == 2 {
		if id, ok := isInt(v.c.resolve(t.Args[0])); ok {
			for k, n := range v.typeIDs {
				if n != id {
					continue
				}
				dt := v.typeByKey[k]
				if dt == nil {
					break
				}
				fn := v.prog.LookupMethod(dt, m.Pkg(), m.Name())
				if fn == nil {
					break
				}
				self := v.ifaceGet(t, dt)
				return v.callFn(f, name, fn, nil, append([]*Val{self}, args...), g, st, pos, ssa.CallCommon{})
			}
		}
	}
	if v.cur != nil && v.cur.NoPanic {
		v.oblige("nil", "call of method "+m.Name()+" of nil interface", tImp(g, tNot(tEq(recv.Term, konst("inil", "Iface")))), pos)
	}
	v.c.fact(tImp(g, tNot(tEq(recv.Term, konst("inil", "Iface")))))
	full := m.FullName()
	if c := v.contracts[full]; c != nil {
		return v.callContract(name, c, full, m.Type().(*types.Signature), append([]*Val{recv}, args...), g, st, pos), g
	}
	if dt := v.onlyImplementation(recv.T); dt != nil {
		if fn := v.prog.LookupMethod(dt, m.Pkg(), m.Name()); fn != nil {
			v.note("only-implementation", fmt.Sprintf("values of %s are %s", recv.T, dt))
			v.c.fact(tImp(g, v.ifaceIs(recv.Term, dt)))
			self := v.ifaceGet(recv.Term, dt)
			v.c.fact(tImp(g, tNot(tEq(self.Term, tInt(0)))))
			return v.callFn(f, name, fn, nil, append([]*Val{self}, args...), g, st, pos, ssa.CallCommon{})
		}
	}
	v.note("extern", full)
	if v.isModule(m.Pkg()) {
		v.havocAll(st)
	} else {
		for _, a := range args {
			v.havocArg(a, st)
		}
	}
	return v.freshResult(name, m.Type().(*types.Signature), g, st), g
}

// onlyImplementation returns the type of the module that implements an interface of the module, if there is
// only one.
func (v *Verifier) onlyImplementation(t types.Type) types.Type {
	named, ok := t.(*types.Named)
	if !ok || !v.isModule(named.Obj().Pkg()) {
		return nil
	}
	it, ok := named.Underlying().(*types.Interface)
	if !ok || it.NumMethods() == 0 {
		return nil
	}
	if res, ok := v.onlyImpl[named.Obj()]; ok {
		return res
	}
	var found types.Type
	count := 0
	for _, pkg := range v.prog.AllPackages() {
		if !v.isModule(pkg.Pkg) {
			continue
		}
		scope := pkg.Pkg.Scope()
		for _, n := range scope.Names() {
			tn, ok := scope.Lookup(n).(*types.TypeName)
			if !ok || tn.IsAlias() || types.IsInterface(tn.Type()) {
				continue
			}
			if types.Implements(tn.Type(), it) {
				found, count = tn.Type(), count+2
			} else if types.Implements(types.NewPointer(tn.Type()), it) {
				found, count = types.NewPointer(tn.Type()), count+1
			}
		}
	}
	if count != 1 {
		found = nil
	}
	v.onlyImpl[named.Obj()] = found
	return found
}

// resolve follows the definitions of named terms.
func (c *Ctx) resolve(t *Term) *Term {
	for len(t.Args) == 0 {
		d, ok := c.defs[t.Op]
		if !ok {
			break
		}
		t = d
	}
	return t
}

func (v *Verifier) builtin(f *frame, name string, cc ssa.CallCommon, g *Term, st *State, pos token.Pos) *Val {
	switch name {
	case "len":
		x := v.val(f, cc.Args[0])
		switch u := cc.Args[0].Type().Underlying().(type) {
		case *types.Slice:
			return ival(mk("Int", "slen", x.Term))
		case *types.Basic:
			return ival(mk("Int", "strlen", x.Term))
		case *types.Map:
			return ival(tIte(tEq(x.Term, tInt(0)), tInt(0), v.card(v.mapDom(st, x))))
		case *types.Array:
			return ival(tInt(u.Len()))
		}
	case "cap":
		x := v.val(f, cc.Args[0])
		if _, ok := cc.Args[0].Type().Underlying().(*types.Slice); ok {
			return ival(mk("Int", "scap", x.Term))
		}
	case "append":
		return v.appendSlice(f, cc, g, st)
	case "copy":
		return v.copySlice(f, cc, g, st)
	case "delete":
		m := v.val(f, cc.Args[0])
		k := v.term(v.val(f, cc.Args[1]))
		dk, _, ks, _, _ := v.mapKeys(m)
		ds := arraySort("Int", arraySort(ks, "Bool"))
		v.registry[dk] = ds
		d := v.heap(st, dk, ds)
		st.heaps[dk] = v.c.name("MD", tStore(d, m.Term, tStore(tSelect(d, m.Term), k, tFalse)))
		v.written[dk] = true
		return nil
	case "ssa:wrapnilchk":
		x := v.val(f, cc.Args[0])
		v.nonNil(f, g, x, "method value", pos)
		return x
	case "print", "println":
		return nil
	}
	unsup("builtin %s", name)
	return nil
}

func (v *Verifier) elemHeap(st *State, et types.Type) (string, string, *Term) {
	if v.isComposite(et) {
		unsup("slice of structs")
	}
	key := "E|" + typeKey(et)
	v.noteHeap(key, et)
	srt := arraySort("Int", arraySort("Int", v.goSort(et)))
	v.registry[key] = srt
	return key, srt, v.heap(st, key, srt)
}

func (v *Verifier) appendSlice(f *frame, cc ssa.CallCommon, g *Term, st *State) *Val {
	s, t := v.val(f, cc.Args[0]), v.val(f, cc.Args[1])
	stype := cc.Args[0].Type()
	et := stype.Underlying().(*types.Slice).Elem()
	key, _, h := v.elemHeap(st, et)
	es := v.goSort(et)
	n := v.c.name("n", mk("Int", "slen", s.Term))
	isStr := t.Term.Sort == "Str"
	var k *Term
	constK := int64(-1)
	var tarr, toff *Term
	if isStr {
		k = mk("Int", "strlen", t.Term)
	} else {
		d := v.c.resolve(t.Term)
		if d.Op == "mkslice" {
			k = v.c.resolve(d.Args[2])
			tarr, toff = d.Args[0], d.Args[1]
			if c, ok := isInt(k); ok {
				constK = c
			}
		} else {
			k = mk("Int", "slen", t.Term)
			tarr, toff = mk("Int", "sarr", t.Term), mk("Int", "soff", t.Term)
		}
	}
	k = v.c.name("k", k)
	total := v.c.name("total", tAdd(n, k))
	inplace := v.c.name("inplace", tLe(total, mk("Int", "scap", s.Term)))
	nr := v.newObj(st, "arr")
	oldA := v.c.name("oldA", tSelect(h, mk("Int", "sarr", s.Term)))
	// constants instead of definitions because conditionals aren't allowed in patterns
	arr, off := v.c.freshConst("arr", "Int"), v.c.freshConst("off", "Int")
	v.c.fact(tEq(arr, tIte(inplace, mk("Int", "sarr", s.Term), nr)))
	v.c.fact(tEq(off, tIte(inplace, mk("Int", "soff", s.Term), tInt(0))))
	soff := mk("Int", "soff", s.Term)
	raw := func(format string, a ...interface{}) {
		v.c.fact(&Term{Op: fmt.Sprintf(format, a...), Sort: "Bool"})
	}
	// A is the array with the existing elements
	A := v.c.freshConst("A", arraySort("Int", es))
	v.c.fact(tImp(inplace, tEq(A, oldA)))
	raw("(forall ((j Int)) (! (=> (and (<= 0 j) (< j %s)) (= (select %s (idx %s j)) (select %s (idx %s j)))) :pattern ((select %s (idx %s j))) :pattern ((select %s (idx %s j)))))", n, A, off, oldA, soff, A, off, oldA, soff)
	if es == "Int" || es == "Str" {
		v.c.fact(tEq(v.listOf(&Val{K: "seq", Term: A, Off: off}, n).Term, v.listOf(&Val{K: "seq", Term: oldA, Off: soff}, n).Term))
	}
	var B *Term
	switch {
	case constK >= 0 && constK <= 16:
		B = A
		for j := int64(0); j < constK; j++ {
			x := tSelect(tSelect(h, tarr), tAdd(toff, tInt(j)))
			x = v.c.name("x", x)
			B = v.c.name("B", tStore(B, tIdx(off, tAdd(n, tInt(j))), x))
		}
		if constK > 0 {
			raw("(forall ((j Int)) (! (=> (and (<= 0 j) (< j %s)) (= (select %s (idx %s j)) (select %s (idx %s j)))) :pattern ((select %s (idx %s j)))))", n, B, off, A, off, A, off)
		}
	default:
		B = v.c.freshConst("B", arraySort("Int", es))
		// elements before the end don't change; neither do the ones after the new end
		raw("(forall ((j Int)) (! (=> (or (< j (+ %s %s)) (>= j (+ %s %s))) (= (select %s j) (select %s j))) :pattern ((select %s j))))", off, n, off, total, B, A, B)
		if !isStr {
			T := v.c.name("T", tSelect(h, tarr))
			raw("(forall ((j Int)) (! (=> (and (<= %s j) (< j %s)) (= (select %s (idx %s j)) (select %s (idx %s (- j %s))))) :pattern ((select %s (idx %s j)))))", n, total, B, off, T, toff, n, B, off)
			raw("(forall ((j Int)) (! (=> (and (<= 0 j) (< j %s)) (= (select %s (idx %s (+ j %s))) (select %s (idx %s j)))) :pattern ((select %s (idx %s j)))))", k, B, off, n, T, toff, T, toff)
			if es == "Int" || es == "Str" {
				v.c.fact(tEq(v.listOf(&Val{K: "seq", Term: B, Off: off}, n).Term, v.listOf(&Val{K: "seq", Term: A, Off: off}, n).Term))
				v.c.fact(tEq(v.listOf(&Val{K: "seq", Term: B, Off: off}, total).Term,
					v.listCat(v.listOf(&Val{K: "seq", Term: A, Off: off}, n), v.listOf(&Val{K: "seq", Term: T, Off: toff}, k)).Term))
			}
		}
	}
	st.heaps[key] = v.c.name("H", tStore(h, arr, B))
	v.written[key] = true
	nc := v.c.freshConst("newcap", "Int")
	v.c.fact(tLe(total, nc))
	return &Val{T: stype, Term: mk("Slice", "mkslice", arr, off, total, v.c.name("cap", tIte(inplace, mk("Int", "scap", s.Term), nc)))}
}

// listCat concatenates lists.
func (v *Verifier) listCat(a, b *Val) *Val {
	ls, nilc, snoc := "LI", "li.nil", "li.snoc"
	if a.Term.Sort == "LS" {
		ls, nilc, snoc = "LS", "ls.nil", "ls.snoc"
	}
	es := map[string]string{"LI": "Int", "LS": "Str"}[ls]
	fn := "listcat!" + ls
	if !v.c.declSet[fn] {
		v.c.declare(fn, ls, ls, ls)
		v.axioms = append(v.axioms,
			fmt.Sprintf("(forall ((a %s)) (! (= (%s a %s) a) :pattern ((%s a %s))))", ls, fn, nilc, fn, nilc),
			fmt.Sprintf("(forall ((a %s)) (! (= (%s %s a) a) :pattern ((%s %s a))))", ls, fn, nilc, fn, nilc),
			fmt.Sprintf("(forall ((a %s) (b %s) (x %s)) (! (= (%s a (%s b x)) (%s (%s a b) x)) :pattern ((%s a (%s b x)))))", ls, ls, es, fn, snoc, snoc, fn, fn, snoc),
			fmt.Sprintf("(forall ((a %s) (b %s) (c %s)) (! (= (%s (%s a b) c) (%s a (%s b c))) :pattern ((%s (%s a b) c))))", ls, ls, ls, fn, fn, fn, fn, fn, fn))
	}
	return &Val{K: a.K, Term: mk(ls, fn, a.Term, b.Term)}
}

func (v *Verifier) copySlice(f *frame, cc ssa.CallCommon, g *Term, st *State) *Val {
	d, s := v.val(f, cc.Args[0]), v.val(f, cc.Args[1])
	et := cc.Args[0].Type().Underlying().(*types.Slice).Elem()
	key, _, h := v.elemHeap(st, et)
	es := v.goSort(et)
	dn := mk("Int", "slen", d.Term)
	darr, doff := mk("Int", "sarr", d.Term), mk("Int", "soff", d.Term)
	B := v.c.freshConst("B", arraySort("Int", es))
	A := v.c.name("A", tSelect(h, darr))
	if s.Term.Sort == "Str" {
		n := v.c.name("ncopy", tIte(tLe(dn, mk("Int", "strlen", s.Term)), dn, mk("Int", "strlen", s.Term)))
		st.heaps[key] = v.c.name("H", tStore(h, darr, B))
		v.written[key] = true
		return ival(n)
	}
	sn := mk("Int", "slen", s.Term)
	sarr, soff := mk("Int", "sarr", s.Term), mk("Int", "soff", s.Term)
	n := v.c.name("ncopy", tIte(tLe(dn, sn), dn, sn))
	T := v.c.name("T", tSelect(h, sarr))
	v.c.fact(&Term{Op: fmt.Sprintf("(forall ((j Int)) (! (=> (or (< j %s) (>= j (+ %s %s))) (= (select %s j) (select %s j))) :pattern ((select %s j))))", doff, doff, n, B, A, B), Sort: "Bool"})
	v.c.fact(&Term{Op: fmt.Sprintf("(forall ((j Int)) (! (=> (and (<= 0 j) (< j %s)) (= (select %s (idx %s j)) (select %s (idx %s j)))) :pattern ((select %s (idx %s j))) :pattern ((select %s (idx %s j)))))", n, B, doff, T, soff, B, doff, T, soff), Sort: "Bool"})
	if es == "Int" || es == "Str" {
		v.c.fact(tEq(v.listOf(&Val{K: "seq", Term: B, Off: doff}, n).Term, v.listOf(&Val{K: "seq", Term: T, Off: soff}, n).Term))
	}
	st.heaps[key] = v.c.name("H", tStore(h, darr, B))
	v.written[key] = true
	return ival(n)
}

// variadic returns the values passed in a variadic argument, if they are known.
func (v *Verifier) variadic(f *frame, a ssa.Value, st *State) ([]*Val, bool) {
	x := v.val(f, a)
	if c, ok := a.(*ssa.Const); ok && c.Value == nil {
		return nil, true
	}
	d := v.c.resolve(x.Term)
	if d.Op != "mkslice" {
		return nil, false
	}
	n, ok := isInt(v.c.resolve(d.Args[2]))
	if !ok || n > 32 {
		return nil, false
	}
	et := a.Type().Underlying().(*types.Slice).Elem()
	_, _, h := v.elemHeap(st, et)
	var out []*Val
	for i := int64(0); i < n; i++ {
		// resolve the stores of the array
		idx := tAdd(d.Args[1], tInt(i))
		t := v.readArray(h, d.Args[0], idx)
		out = append(out, &Val{T: et, Term: t})
	}
	return out, true
}

// readArray reads an element of an array following the known stores.
func (v *Verifier) readArray(h, arr, idx *Term) *Term {
	cur := v.c.resolve(h)
	for cur.Op == "store" {
		if cur.Args[1].String() == arr.String() {
			a := v.c.resolve(cur.Args[2])
			for a.Op == "store" {
				if a.Args[1].String() == idx.String() {
					return a.Args[2]
				}
				if _, ok := isInt(a.Args[1]); !ok {
					break
				}
				a = v.c.resolve(a.Args[0])
			}
			if a.Op == "select" && a.Args[1].String() == arr.String() {
				cur = v.c.resolve(a.Args[0])
				continue
			}
			return tSelect(cur.Args[2], idx)
		}
		break
	}
	return tSelect(tSelect(h, arr), idx)
}

// sprintf models fmt.Sprintf with a constant format.
func (v *Verifier) sprintf(f *frame, cc ssa.CallCommon, args []*Val, st *State) *Val {
	if len(cc.Args) != 2 {
		return nil
	}
	c, ok := cc.Args[0].(*ssa.Const)
	if !ok || c.Value == nil || c.Value.Kind() != constant.String {
		return nil
	}
	vals, ok := v.variadic(f, cc.Args[1], st)
	if !ok {
		return nil
	}
	format := constant.StringVal(c.Value)
	var parts []*Term
	lit := ""
	n := 0
	for i := 0; i < len(format); i++ {
		if format[i] != '%' {
			lit += string(format[i])
			continue
		}
		i++
		if i >= len(format) {
			return nil
		}
		if format[i] == '%' {
			lit += "%"
			continue
		}
		verb := format[i]
		if !strings.ContainsRune("sdvqTtpx", rune(verb)) {
			return nil
		}
		if n >= len(vals) {
			return nil
		}
		parts = append(parts, v.c.strLit(lit), v.formatWith(verb, vals[n], st))
		lit = ""
		n++
	}
	if n != len(vals) {
		return nil
	}
	parts = append(parts, v.c.strLit(lit))
	v.note("builtin", "fmt.Sprintf")
	return &Val{T: stringT, Term: v.c.tCat(parts...)}
}

// formatWith uses the pure contract of the String method of the value, where its preconditions hold.
func (v *Verifier) formatWith(verb byte, x *Val, st *State) *Term {
	r := v.format(verb, x)
	t := v.c.resolve(x.Term)
	if verb != 's' && verb != 'v' || len(t.Args) != 2 || !strings.HasPrefix(t.Op, "i") {
		return r
	}
	id, ok := isInt(v.c.resolve(t.Args[0]))
	if !ok {
		return r
	}
	for k, n := range v.typeIDs {
		dt := v.typeByKey[k]
		if n != id || dt == nil {
			continue
		}
		ms := types.NewMethodSet(dt)
		if ms.Lookup(nil, "Error") != nil || ms.Lookup(nil, "Format") != nil {
			return r
		}
		sel := ms.Lookup(nil, "String")
		if sel == nil || len(sel.Index()) != 1 {
			return r
		}
		fn := sel.Obj().(*types.Func)
		c := v.contracts[fn.FullName()]
		if c == nil || c.Is == nil || len(c.Params) != 1 {
			return r
		}
		v.note("contract", fn.FullName())
		self := v.ifaceGet(t, dt)
		env := &Env{vars: map[string]*Val{c.Params[0]: self}, st: st, old: st, alloc0: st.alloc}
		pre := tTrue
		for _, q := range c.Requires {
			pre = tAnd(pre, v.evalBool(env, q.E))
		}
		return tIte(pre, v.applyPure(env, fn.FullName(), []*Val{self}).Term, r)
	}
	return r
}

func (v *Verifier) format(verb byte, x *Val) *Term {
	t := v.c.resolve(x.Term)
	if t.Op == "istr" && (verb == 's' || verb == 'v') {
		if id, ok := isInt(t.Args[0]); ok && v.plainType(id) {
			return t.Args[1]
		}
	}
	if t.Op == "iint" && (verb == 'd' || verb == 'v') {
		if id, ok := isInt(t.Args[0]); ok && v.plainType(id) {
			v.c.declare("f!fmtInt", "Str", "Int")
			return mk("Str", "f!fmtInt", t.Args[1])
		}
	}
	if t.Op == "iother" && verb == 'v' {
		if id, ok := isInt(t.Args[0]); ok && v.plainType(id) && v.unsignedType(id) {
			verb = 'd'
		}
	}
	n := "fmt!" + string(verb)
	if verb == 's' {
		n = "f!anyText"
	} else if verb == 'v' {
		n = "f!shownText"
	} else if verb == 'd' {
		n = "f!decimalText"
	}
	v.c.declare(n, "Str", "Iface")
	return mk("Str", n, x.Term)
}

func (v *Verifier) unsignedType(id int64) bool {
	for k, n := range v.typeIDs {
		if n == id {
			t, ok := v.typeByKey[k].(*types.Basic)
			return ok && t.Info()&types.IsUnsigned != 0
		}
	}
	return false
}

// plainType tells whether the type has no methods.
func (v *Verifier) plainType(id int64) bool {
	for k, n := range v.typeIDs {
		if n == id {
			t := v.typeByKey[k]
			return t != nil && types.NewMethodSet(t).Len() == 0
		}
	}
	return false
}

// sortSort models sort.Sort for named slice types whose Len, Less and Swap methods have contracts:
// the result is a permutation and it is sorted according to the Less method.
func (v *Verifier) sortSort(f *frame, cc ssa.CallCommon, x *Val, g *Term, st *State, pos token.Pos) {
	t := v.c.resolve(x.Term)
	if t.Op != "islice" {
		unsup("sort.Sort of unknown type")
	}
	id, _ := isInt(t.Args[0])
	var dt types.Type
	for k, n := range v.typeIDs {
		if n == id {
			dt = v.typeByKey[k]
		}
	}
	if dt == nil {
		unsup("sort.Sort of unknown type")
	}
	var less *Contract
	for _, m := range []string{"Len", "Less", "Swap"} {
		fn := v.prog.LookupMethod(dt, nil, m)
		if fn == nil {
			unsup("type %s has no method %s", dt, m)
		}
		full := fullName(fn)
		c := v.contracts[full]
		if c == nil {
			unsup("method %s has no contract, needed by sort.Sort", full)
		}
		v.note("contract", full)
		if m == "Less" {
			less = c
		}
	}
	if less.Is == nil {
		unsup("method Less has no pure contract")
	}
	v.note("builtin", "sort.Sort")
	et := dt.Underlying().(*types.Slice).Elem()
	key, _, h := v.elemHeap(st, et)
	s := t.Args[1]
	es := v.goSort(et)
	arr, off, n := mk("Int", "sarr", s), mk("Int", "soff", s), v.c.name("n", mk("Int", "slen", s))
	off = v.c.name("off", off)
	A := v.c.name("A", tSelect(h, arr))
	B := v.c.freshConst("sorted", arraySort("Int", es))
	p, q := v.c.fresh("perm"), v.c.fresh("mrep")
	v.c.declare(p, "Int", "Int")
	v.c.declare(q, "Int", "Int")
	raw := func(format string, a ...interface{}) {
		v.c.fact(&Term{Op: fmt.Sprintf(format, a...), Sort: "Bool"})
	}
	raw("(forall ((j Int)) (! (=> (or (< j %s) (>= j (+ %s %s))) (= (select %s j) (select %s j))) :pattern ((select %s j))))", off, off, n, B, A, B)
	pp := func(X, Y *Term, p, q string) {
		raw("(forall ((j Int)) (! (=> (and (<= 0 j) (< j %s)) (and (<= 0 (%s j)) (< (%s j) %s) (= (select %s (idx %s j)) (select %s (idx %s (%s j)))) (= (%s (%s j)) j))) :pattern ((select %s (idx %s j)))))",
			n, p, p, n, X, off, Y, off, p, q, p, X, off)
	}
	pp(B, A, p, q)
	pp(A, B, q, p)
	st.heaps[key] = v.c.name("H", tStore(h, arr, B))
	v.written[key] = true
	// sorted:
	i, j := fmt.Sprintf("i?%d", v.qn), fmt.Sprintf("j?%d", v.qn)
	v.qn++
	env := &Env{vars: map[string]*Val{}, st: st, old: st, alloc0: st.alloc}
	self := &Val{T: dt, Term: s}
	l := v.applyPure(env, less.Full, []*Val{self, ival(konst(j, "Int")), ival(konst(i, "Int"))})
	raw("(forall ((%s Int) (%s Int)) (! (=> (and (<= 0 %s) (< %s %s) (< %s %s)) (not %s)) :pattern ((select %s (idx %s %s)) (select %s (idx %s %s)))))",
		i, j, i, i, j, j, n, l.Term, B, off, i, B, off, j)
}

func shortName(full string) string {
	full = strings.ReplaceAll(full, "github.com/openshift-online/ocm-api-metamodel/pkg/", "")
	return strings.ReplaceAll(full, "github.com/openshift-online/ocm-api-metamodel/", "")
}
