package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"
)

// Env is the environment where specification expressions are evaluated.
type Env struct {
	vars    map[string]*Val
	st      *State
	old     *State
	loop    *State // state when the loop was entered
	alloc0  *Term  // allocation frontier of the old state
	visited func(k *Term) *Term
	visSet  *Term
	spos    *Term // position of the iteration of a string
	depth   int
	recSelf string // name of the recursive function being defined: inner calls use the limited version
	pats    *[]string
}

func (e *Env) with(name string, x *Val) *Env {
	n := *e
	n.vars = make(map[string]*Val, len(e.vars)+1)
	for k, v := range e.vars {
		n.vars[k] = v
	}
	n.vars[name] = x
	return &n
}

type specError struct{ msg string }

func serr(f string, a ...interface{}) {
	panic(specError{fmt.Sprintf(f, a...)})
}

// resolveType converts a type expression into a Go type or a specification-only kind.
func (v *Verifier) resolveType(t *TypeExpr) (types.Type, string) {
	switch t.Kind {
	case "ptr":
		e, _ := v.resolveType(t.Elem)
		return types.NewPointer(e), ""
	case "slice":
		e, _ := v.resolveType(t.Elem)
		return types.NewSlice(e), ""
	case "map":
		k, _ := v.resolveType(t.Key)
		e, _ := v.resolveType(t.Elem)
		return types.NewMap(k, e), ""
	case "seq":
		return nil, "seq"
	}
	if t.Pkg == "" {
		switch t.Name {
		case "list", "slist", "ref", "tok":
			return nil, t.Name
		case "any":
			return types.NewInterfaceType(nil, nil), ""
		}
		if o := types.Universe.Lookup(t.Name); o != nil {
			if tn, ok := o.(*types.TypeName); ok {
				return tn.Type(), ""
			}
		}
		if strings.HasPrefix(t.Name, "O_") {
			return nil, "sort:" + t.Name
		}
		serr("unknown type %s", t.Name)
	}
	p := v.pkgByAlias(t.Pkg)
	if p == nil {
		serr("unknown package %s", t.Pkg)
	}
	o := p.Scope().Lookup(t.Name)
	tn, ok := o.(*types.TypeName)
	if !ok {
		serr("unknown type %s.%s", t.Pkg, t.Name)
	}
	return tn.Type(), ""
}

func (v *Verifier) pkgByAlias(alias string) *types.Package {
	path, ok := v.spec.Imports[alias]
	if !ok {
		return nil
	}
	p := v.pkgs[path]
	if p == nil {
		serr("package %s isn't loaded", path)
	}
	return p
}

func (v *Verifier) specSort(t types.Type, k string) string {
	if t != nil {
		return v.goSort(t)
	}
	switch k {
	case "list":
		return "LI"
	case "slist":
		return "LS"
	case "ref":
		return "Int"
	}
	if strings.HasPrefix(k, "sort:") {
		return k[5:]
	}
	serr("kind %s has no sort", k)
	return ""
}

func (v *Verifier) bindParam(name string, te *TypeExpr, hint string) (*Val, [][2]string) {
	if te.Kind == "seq" {
		et, ek := v.resolveType(te.Elem)
		s := arraySort("Int", v.specSort(et, ek))
		a, o := hint+"!a", hint+"!o"
		return &Val{K: "seq", Term: konst(a, s), Off: konst(o, "Int"), Elem: et}, [][2]string{{a, s}, {o, "Int"}}
	}
	t, k := v.resolveType(te)
	s := v.specSort(t, k)
	return &Val{T: t, K: k, Term: konst(hint, s)}, [][2]string{{hint, s}}
}

func (v *Verifier) evalBool(env *Env, e Expr) *Term {
	x := v.eval(env, e)
	if x.Term == nil || x.Term.Sort != "Bool" {
		serr("boolean expected: %v", exprString(e))
	}
	return x.Term
}

var boolT = types.Typ[types.Bool]
var intT = types.Typ[types.Int]
var stringT = types.Typ[types.String]

func bval(t *Term) *Val { return &Val{T: boolT, Term: t} }
func ival(t *Term) *Val { return &Val{T: intT, Term: t} }

func (v *Verifier) eval(env *Env, e Expr) *Val {
	switch x := e.(type) {
	case *EInt:
		return ival(tInt(x.N))
	case *EBool:
		return bval(tBool(x.B))
	case *EStr:
		return &Val{T: stringT, Term: v.c.strLit(x.S)}
	case *ENil:
		return &Val{K: "nil"}
	case *EIdent:
		if r, ok := env.vars[x.Name]; ok {
			return r
		}
		if x.Name == "empty" {
			return &Val{K: "list", Term: konst("li.nil", "LI")}
		}
		if x.Name == "sempty" {
			return &Val{K: "slist", Term: konst("ls.nil", "LS")}
		}
		if d, ok := v.spec.Defs[x.Name]; ok && len(d.Params) == 0 {
			return v.applyDef(env, d, nil)
		}
		serr("unknown name %s", x.Name)
	case *ESel:
		if id, ok := x.X.(*EIdent); ok {
			if _, isVar := env.vars[id.Name]; !isVar {
				if _, isPkg := v.spec.Imports[id.Name]; isPkg {
					return v.evalGlobal(env, id.Name, x.Name)
				}
			}
		}
		return v.evalField(env, v.eval(env, x.X), x.Name)
	case *EIndex:
		c := v.eval(env, x.X)
		i := v.eval(env, x.I)
		return v.evalIndex(env, c, i)
	case *ECond:
		c := v.evalBool(env, x.C)
		a := v.eval(env, x.A)
		b := v.eval(env, x.B)
		a, b = v.unify(a, b)
		r := *a
		r.Term = tIte(c, a.Term, b.Term)
		return &r
	case *ELet:
		return v.eval(env.with(x.Name, v.eval(env, x.X)), x.Body)
	case *EUn:
		switch x.Op {
		case "!":
			return bval(tNot(v.evalBool(env, x.X)))
		case "-":
			return ival(mk("Int", "-", v.eval(env, x.X).Term))
		case "*":
			p := v.eval(env, x.X)
			pt, ok := p.T.Underlying().(*types.Pointer)
			if !ok {
				serr("dereference of non pointer")
			}
			return v.deref(env.st, p, pt.Elem())
		case "&":
			// address of an embedded struct
			if sel, ok := x.X.(*ESel); ok {
				p := v.eval(env, sel.X)
				if p.T != nil {
					if st, ptr := derefType(p.T); ptr {
						if u, ok := st.Underlying().(*types.Struct); ok {
							for i := 0; i < u.NumFields(); i++ {
								if u.Field(i).Name() == sel.Name && v.isComposite(u.Field(i).Type()) {
									return v.fieldAddr(st, p.Term, i)
								}
							}
						}
					}
				}
			}
			serr("unsupported address %s", exprString(x))
		}
	case *EBin:
		return v.evalBin(env, x)
	case *EQuant:
		return bval(v.evalQuant(env, x))
	case *ECall:
		return v.evalCall(env, x)
	}
	serr("unsupported expression %s", exprString(e))
	return nil
}

func (v *Verifier) evalGlobal(env *Env, alias, name string) *Val {
	p := v.pkgByAlias(alias)
	o := p.Scope().Lookup(name)
	switch o := o.(type) {
	case *types.Var:
		ref := v.globalRef(o)
		return v.deref(env.st, &Val{T: types.NewPointer(o.Type()), Term: ref}, o.Type())
	case *types.Const:
		return v.constVal(o.Val(), o.Type())
	}
	serr("unknown global %s.%s", alias, name)
	return nil
}

func (v *Verifier) constVal(c constant.Value, t types.Type) *Val {
	if c == nil {
		return v.zeroVal(t)
	}
	switch c.Kind() {
	case constant.Bool:
		return &Val{T: t, Term: tBool(constant.BoolVal(c))}
	case constant.String:
		return &Val{T: t, Term: v.c.strLit(constant.StringVal(c))}
	case constant.Int, constant.Float:
		s := v.goSort(t)
		if w := bvWidth(s); w > 0 {
			u, _ := constant.Uint64Val(constant.ToInt(c))
			return &Val{T: t, Term: bvLit(u, w)}
		}
		if s == "Int" {
			n, exact := constant.Int64Val(constant.ToInt(c))
			if !exact {
				unsup("constant %s too big", c)
			}
			return &Val{T: t, Term: tInt(n)}
		}
		if s == "Flt" {
			n := "flt!" + sanitize(c.ExactString())
			v.c.declare(n, "Flt")
			return &Val{T: t, Term: konst(n, "Flt")}
		}
	}
	unsup("constant %s of type %s", c, t)
	return nil
}

func derefType(t types.Type) (types.Type, bool) {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem(), true
	}
	return t, false
}

func (v *Verifier) ghostFor(t types.Type, name string) *Ghost {
	for _, g := range v.spec.Ghosts {
		if g.Name != name {
			continue
		}
		gt, _ := v.resolveType(g.Type)
		if types.Identical(gt, t) {
			return g
		}
	}
	return nil
}

func (v *Verifier) evalField(env *Env, x *Val, name string) *Val {
	if x.T == nil {
		serr("field %s of specification value", name)
	}
	t, isPtr := derefType(x.T)
	if isPtr {
		if g := v.ghostFor(t, name); g != nil {
			gt, gk := v.resolveType(g.Sort)
			return &Val{T: gt, K: gk, Term: v.loadAddr(env.st, v.ghostAddr(g, x.Term))}
		}
	}
	if _, ok := t.Underlying().(*types.Struct); !ok {
		serr("field %s of non struct %s", name, t)
	}
	var pkg *types.Package
	if n, ok := types.Unalias(t).(*types.Named); ok {
		pkg = n.Obj().Pkg()
	}
	obj, index, _ := types.LookupFieldOrMethod(t, true, pkg, name)
	if _, ok := obj.(*types.Var); !ok {
		serr("type %s has no field %s", t, name)
	}
	cur := x
	for _, i := range index {
		ct, ptr := derefType(cur.T)
		st := ct.Underlying().(*types.Struct)
		if ptr {
			if cur.Addr != nil {
				cur = v.deref(env.st, cur, ct)
				cur = cur.Fields[i]
				continue
			}
			fa := v.fieldAddr(ct, cur.Term, i)
			ft := st.Field(i).Type()
			if fa.Addr != nil {
				cur = v.deref(env.st, fa, ft)
			} else {
				// nested struct: keep the reference so that its fields can be accessed
				cur = fa
			}
		} else {
			cur = cur.Fields[i]
		}
	}
	return cur
}

func (v *Verifier) evalIndex(env *Env, c, i *Val) *Val {
	if c.K == "seq" {
		return &Val{T: c.Elem, Term: tSelect(c.Term, tIdx(c.Off, i.Term))}
	}
	if c.T == nil {
		serr("index of specification value")
	}
	switch u := c.T.Underlying().(type) {
	case *types.Slice:
		a := v.elemAddr(u.Elem(), mk("Int", "sarr", c.Term), tIdx(mk("Int", "soff", c.Term), i.Term))
		if a.Addr == nil {
			return v.deref(env.st, a, u.Elem())
		}
		return v.deref(env.st, a, u.Elem())
	case *types.Map:
		return &Val{T: u.Elem(), Term: v.mapVal(env.st, c, i.Term)}
	}
	serr("can't index %s", c.T)
	return nil
}

func (v *Verifier) mapKeys(m *Val) (dk, vk, ks, vs string, mt *types.Map) {
	mt = m.T.Underlying().(*types.Map)
	ks, vs = v.goSort(mt.Key()), v.goSort(mt.Elem())
	id := typeKey(mt.Key()) + "|" + typeKey(mt.Elem())
	dk, vk = "MD|"+id, "MV|"+id
	v.noteHeap(vk, mt.Elem())
	return
}

func (v *Verifier) mapDom(st *State, m *Val) *Term {
	dk, _, ks, _, _ := v.mapKeys(m)
	return tSelect(v.heap(st, dk, arraySort("Int", arraySort(ks, "Bool"))), m.Term)
}

func (v *Verifier) mapHas(st *State, m *Val, k *Term) *Term {
	return tSelect(v.mapDom(st, m), k)
}

func (v *Verifier) mapVal(st *State, m *Val, k *Term) *Term {
	_, vk, ks, vs, _ := v.mapKeys(m)
	return tSelect(tSelect(v.heap(st, vk, arraySort("Int", arraySort(ks, vs))), m.Term), k)
}

// card is the cardinality of a set represented as an array of booleans.
func (v *Verifier) card(dom *Term) *Term {
	is, _ := arrayParts(dom.Sort)
	n := "card!" + sanitize(is)
	if !v.c.declSet[n] {
		v.c.declare(n, "Int", dom.Sort)
		v.axioms = append(v.axioms,
			fmt.Sprintf("(forall ((d %s)) (! (>= (%s d) 0) :pattern ((%s d))))", dom.Sort, n, n),
			fmt.Sprintf("(forall ((d %s) (k %s)) (! (= (%s (store d k true)) (ite (select d k) (%s d) (+ (%s d) 1))) :pattern ((%s (store d k true)))))", dom.Sort, is, n, n, n, n),
			fmt.Sprintf("(forall ((d %s) (k %s)) (! (= (%s (store d k false)) (ite (select d k) (- (%s d) 1) (%s d))) :pattern ((%s (store d k false)))))", dom.Sort, is, n, n, n, n),
			fmt.Sprintf("(forall ((d %s) (k %s)) (! (=> (select d k) (> (%s d) 0)) :pattern ((%s d) (select d k))))", dom.Sort, is, n, n),
			fmt.Sprintf("(= (%s ((as const %s) false)) 0)", n, dom.Sort))
	}
	return mk("Int", n, dom)
}

func (v *Verifier) unify(a, b *Val) (*Val, *Val) {
	conv := func(x, like *Val) *Val {
		if x.K == "nil" {
			switch {
			case like.T != nil:
				return v.zeroVal(like.T)
			case like.K == "ref":
				return &Val{K: "ref", Term: tInt(0)}
			}
			return ival(tInt(0))
		}
		if like.Term != nil && x.Term != nil {
			if w := bvWidth(like.Term.Sort); w > 0 && x.Term.Sort == "Int" {
				if n, ok := isInt(x.Term); ok {
					return &Val{T: like.T, Term: bvLit(uint64(n), w)}
				}
			}
			if like.Term.Sort == "Iface" && x.Term.Sort != "Iface" && x.T != nil {
				return v.makeIface(x, like.T)
			}
		}
		return x
	}
	return conv(a, b), conv(b, a)
}

func (v *Verifier) evalBin(env *Env, x *EBin) *Val {
	switch x.Op {
	case "==>":
		return bval(tImp(v.evalBool(env, x.X), v.evalBool(env, x.Y)))
	case "<==>":
		return bval(tEq(v.evalBool(env, x.X), v.evalBool(env, x.Y)))
	case "&&":
		return bval(tAnd(v.evalBool(env, x.X), v.evalBool(env, x.Y)))
	case "||":
		return bval(tOr(v.evalBool(env, x.X), v.evalBool(env, x.Y)))
	case "in":
		k, m := v.eval(env, x.X), v.eval(env, x.Y)
		return bval(v.mapHas(env.st, m, k.Term))
	}
	a, b := v.eval(env, x.X), v.eval(env, x.Y)
	a, b = v.unify(a, b)
	switch x.Op {
	case "==":
		return bval(v.equal(a, b))
	case "!=":
		return bval(tNot(v.equal(a, b)))
	case "+":
		if a.Term.Sort == "Str" {
			return &Val{T: stringT, Term: v.c.tCat(a.Term, b.Term)}
		}
	}
	if w := bvWidth(a.Term.Sort); w > 0 {
		ops := map[string]string{"|": "bvor", "&": "bvand", "+": "bvadd", "-": "bvsub", "<<": "bvshl", ">>": "bvlshr", "^": "bvxor"}
		cmp := map[string]string{"<": "bvult", "<=": "bvule", ">": "bvugt", ">=": "bvuge"}
		if x.Op == "&^" {
			return &Val{T: a.T, Term: mk(a.Term.Sort, "bvand", a.Term, mk(a.Term.Sort, "bvnot", b.Term))}
		}
		if o, ok := ops[x.Op]; ok {
			q := b.Term
			if q.Sort == "Int" {
				q = mk(a.Term.Sort, fmt.Sprintf("(_ int2bv %d)", w), q)
			}
			return &Val{T: a.T, Term: mk(a.Term.Sort, o, a.Term, q)}
		}
		if o, ok := cmp[x.Op]; ok {
			return bval(mk("Bool", o, a.Term, b.Term))
		}
		serr("operator %s on bit vectors", x.Op)
	}
	if a.Term.Sort == "Str" {
		switch x.Op {
		case "<":
			return bval(mk("Bool", "strlt", a.Term, b.Term))
		case ">":
			return bval(mk("Bool", "strlt", b.Term, a.Term))
		case "<=":
			return bval(tNot(mk("Bool", "strlt", b.Term, a.Term)))
		case ">=":
			return bval(tNot(mk("Bool", "strlt", a.Term, b.Term)))
		}
	}
	switch x.Op {
	case "+":
		return ival(tAdd(a.Term, b.Term))
	case "-":
		return ival(tSub(a.Term, b.Term))
	case "*":
		return ival(mk("Int", "*", a.Term, b.Term))
	case "<":
		return bval(tLt(a.Term, b.Term))
	case "<=":
		return bval(tLe(a.Term, b.Term))
	case ">":
		return bval(tLt(b.Term, a.Term))
	case ">=":
		return bval(tLe(b.Term, a.Term))
	case "/":
		return ival(mk("Int", "div", a.Term, b.Term))
	case "%":
		return ival(mk("Int", "mod", a.Term, b.Term))
	}
	serr("operator %s", x.Op)
	return nil
}

func (v *Verifier) equal(a, b *Val) *Term {
	if a.Fields != nil || b.Fields != nil {
		if len(a.Fields) != len(b.Fields) {
			serr("comparison of different structs")
		}
		var cs []*Term
		for i := range a.Fields {
			cs = append(cs, v.equal(a.Fields[i], b.Fields[i]))
		}
		return tAnd(cs...)
	}
	// Comparing a slice with nil only looks at the reference:
	if a.Term != nil && a.Term.Sort == "Slice" && isZeroSlice(b.Term) {
		return tEq(mk("Int", "sarr", a.Term), tInt(0))
	}
	if b.Term != nil && b.Term.Sort == "Slice" && isZeroSlice(a.Term) {
		return tEq(mk("Int", "sarr", b.Term), tInt(0))
	}
	return tEq(v.term(a), v.term(b))
}

func isZeroSlice(t *Term) bool {
	return t != nil && t.Op == "mkslice" && t.Args[0].Op == "0"
}

func (v *Verifier) evalQuant(env *Env, q *EQuant) *Term {
	e := env
	var decl []string
	var guards []*Term
	for _, qv := range q.Vars {
		v.qn++
		n := fmt.Sprintf("%s?%d", qv.Name, v.qn)
		t, k := v.resolveType(qv.Type)
		s := v.specSort(t, k)
		c := konst(n, s)
		decl = append(decl, fmt.Sprintf("(%s %s)", n, s))
		e = e.with(qv.Name, &Val{T: t, K: k, Term: c})
		if qv.Lo != nil {
			lo := v.eval(e, qv.Lo)
			hi := v.eval(e, qv.Hi)
			guards = append(guards, tLe(lo.Term, c), tLt(c, hi.Term))
		}
	}
	body := v.evalBool(e, q.Body)
	var pats []string
	var touched []*Term
	for _, tr := range q.Triggers {
		var ts []string
		for _, t := range tr {
			x := v.eval(e, t)
			ts = append(ts, x.Term.String())
			f := "touch!" + sanitize(x.Term.Sort)
			v.c.declare(f, "Bool", x.Term.Sort)
			touched = append(touched, mk("Bool", f, x.Term))
		}
		p := fmt.Sprintf(":pattern (%s)", strings.Join(ts, " "))
		pats = append(pats, p)
		// the unfoldings of recursive functions contain their limited version
		if l := strings.ReplaceAll(p, "(r!", "(rl!"); l != p {
			pats = append(pats, l)
		}
	}
	if !q.Forall && len(pats) == 0 && len(q.Vars) == 1 {
		// selects of arrays may be simplified away, the index remains
		name := e.vars[q.Vars[0].Name].Term.Op
		seen := map[string]bool{}
		var walk func(t *Term)
		walk = func(t *Term) {
			if t.Op == "idx" && len(t.Args) == 2 && t.Args[1].Op == name {
				if s := t.String(); !seen[s] {
					seen[s] = true
					pats = append(pats, fmt.Sprintf(":pattern (%s)", s))
				}
			}
			for _, a := range t.Args {
				walk(a)
			}
		}
		walk(body)
	}
	g := tAnd(guards...)
	op := "forall"
	if q.Forall {
		body = tImp(g, body)
	} else {
		op = "exists"
		body = tAnd(g, body)
	}
	if body.Op == "true" || body.Op == "false" {
		return body
	}
	if len(pats) > 0 {
		r := &Term{Op: fmt.Sprintf("(%s (%s) (! %s %s))", op, strings.Join(decl, " "), body, strings.Join(pats, " ")), Sort: "Bool"}
		if q.Forall && len(touched) > 0 {
			// The terms of the triggers are relevant for the counterexamples, even when
			// the part of the body that is false doesn't mention them. Nothing is known
			// about the touch functions, so this is valid only if the quantifier is.
			r.goal = fmt.Sprintf("(%s (%s) (! %s %s))", op, strings.Join(decl, " "), mk("Bool", "=>", tAnd(touched...), konst(goalString(body), "Bool")), strings.Join(pats, " "))
		}
		return r
	}
	return &Term{Op: fmt.Sprintf("(%s (%s) %s)", op, strings.Join(decl, " "), body), Sort: "Bool"}
}

func exprToType(e Expr) *TypeExpr {
	switch x := e.(type) {
	case *EIdent:
		return &TypeExpr{Kind: "name", Name: x.Name}
	case *ESel:
		if id, ok := x.X.(*EIdent); ok {
			return &TypeExpr{Kind: "name", Pkg: id.Name, Name: x.Name}
		}
	case *EUn:
		if x.Op == "*" {
			return &TypeExpr{Kind: "ptr", Elem: exprToType(x.X)}
		}
	}
	serr("type expected: %s", exprString(e))
	return nil
}

func (v *Verifier) seqOf(env *Env, x *Val) *Val {
	if x.K == "seq" {
		return x
	}
	if x.T == nil {
		serr("slice expected")
	}
	u, ok := x.T.Underlying().(*types.Slice)
	if !ok {
		serr("slice expected, got %s", x.T)
	}
	key := "E|" + typeKey(u.Elem())
	v.noteHeap(key, u.Elem())
	h := v.heap(env.st, key, arraySort("Int", arraySort("Int", v.goSort(u.Elem()))))
	return &Val{K: "seq", Term: tSelect(h, mk("Int", "sarr", x.Term)), Off: mk("Int", "soff", x.Term), Elem: u.Elem()}
}

func (v *Verifier) evalCall(env *Env, c *ECall) *Val {
	if id, ok := c.Fn.(*EIdent); ok {
		switch id.Name {
		case "len":
			x := v.eval(env, c.Args[0])
			switch {
			case x.Term != nil && x.Term.Sort == "Slice":
				return ival(mk("Int", "slen", x.Term))
			case x.Term != nil && x.Term.Sort == "Str":
				return ival(mk("Int", "strlen", x.Term))
			}
			if _, ok := x.T.Underlying().(*types.Map); ok {
				return ival(v.card(v.mapDom(env.st, x)))
			}
			serr("len of %v", x.T)
		case "old":
			e := *env
			e.st = env.old
			return v.eval(&e, c.Args[0])
		case "atloop":
			if env.loop == nil {
				panic(noVisited{})
			}
			e := *env
			e.st = env.loop
			return v.eval(&e, c.Args[0])
		case "iter":
			if v.curIter == nil {
				panic(noVisited{})
			}
			return ival(v.curIter)
		case "has":
			m, k := v.eval(env, c.Args[0]), v.eval(env, c.Args[1])
			return bval(v.mapHas(env.st, m, k.Term))
		case "visited":
			if env.visited == nil {
				panic(noVisited{})
			}
			return bval(env.visited(v.eval(env, c.Args[0]).Term))
		case "nvisited":
			if env.visSet == nil {
				panic(noVisited{})
			}
			return ival(v.card(env.visSet))
		case "spos":
			if env.spos == nil {
				panic(noVisited{})
			}
			return ival(env.spos)
		case "substr":
			v.substrDecl()
			return &Val{T: types.Typ[types.String], Term: mk("Str", "substr", v.eval(env, c.Args[0]).Term, v.eval(env, c.Args[1]).Term, v.eval(env, c.Args[2]).Term)}
		case "utf8valid":
			v.runeDecl()
			return bval(mk("Bool", "utf8valid", v.eval(env, c.Args[0]).Term))
		case "runestr":
			v.runeDecl()
			return &Val{T: types.Typ[types.String], Term: mk("Str", "runestr", v.eval(env, c.Args[0]).Term)}
		case "fresh":
			x := v.eval(env, c.Args[0])
			t := x.Term
			if t.Sort == "Slice" {
				t = mk("Int", "sarr", t)
			}
			return bval(tLe(env.alloc0, mk("Int", "base", t)))
		case "allocated":
			x := v.eval(env, c.Args[0])
			t := x.Term
			if t.Sort == "Slice" {
				t = mk("Int", "sarr", t)
			}
			return bval(tLt(mk("Int", "base", t), env.st.alloc))
		case "arr":
			return &Val{K: "ref", Term: mk("Int", "sarr", v.eval(env, c.Args[0]).Term)}
		case "cap":
			return ival(mk("Int", "scap", v.eval(env, c.Args[0]).Term))
		case "elems":
			return v.seqOf(env, v.eval(env, c.Args[0]))
		case "snoc":
			l, x := v.eval(env, c.Args[0]), v.eval(env, c.Args[1])
			if l.Term.Sort == "LS" {
				return &Val{K: "slist", Term: mk("LS", "ls.snoc", l.Term, x.Term)}
			}
			return &Val{K: "list", Term: mk("LI", "li.snoc", l.Term, x.Term)}
		case "initof":
			l := v.eval(env, c.Args[0])
			if l.Term.Sort == "LS" {
				return &Val{K: "slist", Term: mk("LS", "ls.init", l.Term)}
			}
			return &Val{K: "list", Term: mk("LI", "li.init", l.Term)}
		case "lastof":
			// last element of a list of strings, or of a list of pointers of the given type
			l := v.eval(env, c.Args[0])
			if l.Term.Sort == "LS" {
				return &Val{T: stringT, Term: mk("Str", "ls.last", l.Term)}
			}
			t, k := v.resolveType(exprToType(c.Args[1]))
			return &Val{T: t, K: k, Term: mk("Int", "li.last", l.Term)}
		case "cat":
			return v.listCat(v.eval(env, c.Args[0]), v.eval(env, c.Args[1]))
		case "listof":
			return v.listOf(v.seqOf(env, v.eval(env, c.Args[0])), v.eval(env, c.Args[1]).Term)
		case "contents":
			x := v.eval(env, c.Args[0])
			return v.listOf(v.seqOf(env, x), mk("Int", "slen", x.Term))
		case "bit":
			x, k := v.eval(env, c.Args[0]), v.eval(env, c.Args[1])
			n, ok := isInt(k.Term)
			if !ok {
				serr("bit needs a constant index")
			}
			return bval(tEq(mk("(_ BitVec 1)", fmt.Sprintf("(_ extract %d %d)", n, n), x.Term), konst("#b1", "(_ BitVec 1)")))
		case "pow2":
			return ival(v.pow2(v.eval(env, c.Args[0]).Term))
		case "typeis":
			x := v.eval(env, c.Args[0])
			t, _ := v.resolveType(exprToType(c.Args[1]))
			return bval(v.ifaceIs(x.Term, t))
		case "dyn":
			x := v.eval(env, c.Args[0])
			t, _ := v.resolveType(exprToType(c.Args[1]))
			return v.ifaceGet(x.Term, t)
		case "uint32", "uint64":
			if n, ok := isInt(v.eval(env, c.Args[0]).Term); ok {
				if id.Name == "uint32" {
					return &Val{T: types.Typ[types.Uint32], Term: bvLit(uint64(n), 32)}
				}
				return &Val{T: types.Typ[types.Uint64], Term: bvLit(uint64(n), 64)}
			}
		case "box":
			x := v.eval(env, c.Args[0])
			return v.makeIface(x, types.NewInterfaceType(nil, nil))
		case "ref":
			x := v.eval(env, c.Args[0])
			return &Val{K: "ref", Term: x.Term}
		case "unchanged":
			x := v.eval(env, c.Args[0])
			e := *env
			e.st = env.old
			y := v.eval(&e, c.Args[0])
			return bval(v.equal(x, y))
		}
		if d, ok := v.spec.Defs[id.Name]; ok {
			var args []*Val
			for _, a := range c.Args {
				args = append(args, v.eval(env, a))
			}
			return v.applyDef(env, d, args)
		}
		serr("unknown function %s", id.Name)
	}
	sel := c.Fn.(*ESel)
	// package function or method with a pure contract:
	if id, ok := sel.X.(*EIdent); ok {
		if _, isVar := env.vars[id.Name]; !isVar {
			if path, isPkg := v.spec.Imports[id.Name]; isPkg {
				var args []*Val
				for _, a := range c.Args {
					args = append(args, v.eval(env, a))
				}
				return v.applyPure(env, path+"."+sel.Name, args)
			}
		}
	}
	recv := v.eval(env, sel.X)
	args := []*Val{recv}
	for _, a := range c.Args {
		args = append(args, v.eval(env, a))
	}
	if recv.T == nil {
		serr("method %s of specification value", sel.Name)
	}
	t, _ := derefType(recv.T)
	var pkg *types.Package
	if n, ok := types.Unalias(t).(*types.Named); ok {
		pkg = n.Obj().Pkg()
	}
	obj, index, _ := types.LookupFieldOrMethod(recv.T, true, pkg, sel.Name)
	fn, ok := obj.(*types.Func)
	if !ok {
		serr("type %s has no method %s", recv.T, sel.Name)
	}
	// follow embedded fields:
	cur := recv
	for _, i := range index[:len(index)-1] {
		ct, ptr := derefType(cur.T)
		if ptr {
			fa := v.fieldAddr(ct, cur.Term, i)
			if fa.Addr != nil {
				cur = v.deref(env.st, fa, fa.Addr.T)
			} else {
				cur = fa
			}
		} else {
			cur = cur.Fields[i]
		}
	}
	args[0] = cur
	return v.applyPure(env, fn.FullName(), args)
}

type noVisited struct{}

func (v *Verifier) applyPure(env *Env, full string, args []*Val) *Val {
	c := v.contracts[full]
	if c == nil || c.Is == nil {
		serr("function %s has no pure contract", full)
	}
	e := *env
	e.vars = map[string]*Val{}
	if len(args) != len(c.Params) {
		serr("wrong number of arguments for %s", full)
	}
	for i, p := range c.Params {
		e.vars[p] = args[i]
	}
	e.depth++
	if e.depth > 60 {
		serr("pure functions nested too deep")
	}
	return v.eval(&e, c.Is)
}

func (v *Verifier) applyDef(env *Env, d *Def, args []*Val) *Val {
	if len(args) != len(d.Params) {
		serr("wrong number of arguments for %s", d.Name)
	}
	if d.Fun {
		v.declareFun(d)
		var ts []*Term
		for i, a := range args {
			a = v.coerce(env, a, d.Params[i].Type)
			ts = append(ts, a.Term)
			if a.K == "seq" {
				ts = append(ts, a.Off)
			}
		}
		t, k := v.resolveType(d.Result)
		return &Val{T: t, K: k, Term: mk(v.specSort(t, k), "f!"+d.Name, ts...)}
	}
	if d.Rec {
		return v.applyRec(env, d, args)
	}
	e := *env
	e.vars = map[string]*Val{}
	for i, p := range d.Params {
		e.vars[p.Name] = v.coerce(env, args[i], p.Type)
	}
	e.depth++
	if e.depth > 60 {
		serr("definitions nested too deep")
	}
	r := v.eval(&e, d.Body)
	t, k := v.resolveType(d.Result)
	r, _ = v.unify(r, &Val{T: t, K: k, Term: r.Term})
	if t != nil && r.T == nil {
		r2 := *r
		r2.T = t
		r = &r2
	}
	return r
}

func (v *Verifier) coerce(env *Env, a *Val, t *TypeExpr) *Val {
	if t.Kind == "seq" {
		return v.seqOf(env, a)
	}
	if a.K == "nil" {
		gt, k := v.resolveType(t)
		if gt != nil {
			return v.zeroVal(gt)
		}
		return &Val{K: k, Term: tInt(0)}
	}
	gt, _ := v.resolveType(t)
	if gt != nil && a.Term != nil && a.Term.Sort == "Int" {
		if w := bvWidth(v.goSort(gt)); w > 0 {
			if n, ok := isInt(a.Term); ok {
				return &Val{T: gt, Term: bvLit(uint64(n), w)}
			}
		}
	}
	return a
}

func (v *Verifier) declareFun(d *Def) {
	n := "f!" + d.Name
	if v.c.declSet[n] {
		return
	}
	var ss []string
	for _, p := range d.Params {
		_, bs := v.bindParam(p.Name, p.Type, p.Name)
		for _, b := range bs {
			ss = append(ss, b[1])
		}
	}
	t, k := v.resolveType(d.Result)
	v.c.declare(n, v.specSort(t, k), ss...)
	v.needAxioms = true
}

// recInfo describes the encoding of a recursive specification function.
type recInfo struct {
	heaps []string
	sorts map[string]string
}

func (v *Verifier) recDef(d *Def) *recInfo {
	if r, ok := v.recs[d.Name]; ok {
		return r
	}
	r := &recInfo{sorts: map[string]string{}}
	v.recs[d.Name] = r
	t, k := v.resolveType(d.Result)
	rs := v.specSort(t, k)
	// Find the heaps that the body reads, until there are no more:
	for {
		st := &State{heaps: map[string]*Term{}, alloc: v.alloc0}
		env := &Env{vars: map[string]*Val{}, st: st, old: st, alloc0: v.alloc0, recSelf: d.Name}
		var ss []string
		var decl []string
		var names []*Term
		for _, p := range d.Params {
			x, bs := v.bindParam(p.Name, p.Type, "p!"+p.Name)
			env.vars[p.Name] = x
			for _, b := range bs {
				ss = append(ss, b[1])
				decl = append(decl, fmt.Sprintf("(%s %s)", b[0], b[1]))
				names = append(names, konst(b[0], b[1]))
			}
		}
		for i, h := range r.heaps {
			n := fmt.Sprintf("hp!%d", i)
			st.heaps[h] = konst(n, r.sorts[h])
			ss = append(ss, r.sorts[h])
			decl = append(decl, fmt.Sprintf("(%s %s)", n, r.sorts[h]))
			names = append(names, konst(n, r.sorts[h]))
		}
		before := v.readLog
		v.readLog = map[string]string{}
		body := v.eval(env, d.Body)
		reads := v.readLog
		v.readLog = before
		grown := false
		var ks []string
		for h := range reads {
			ks = append(ks, h)
		}
		sort.Strings(ks)
		for _, h := range ks {
			if _, ok := r.sorts[h]; !ok {
				r.sorts[h] = reads[h]
				r.heaps = append(r.heaps, h)
				grown = true
			}
		}
		if grown {
			continue
		}
		v.c.declare("r!"+d.Name, rs, ss...)
		v.c.declare("rl!"+d.Name, rs, ss...)
		app := mk(rs, "r!"+d.Name, names...)
		lim := mk(rs, "rl!"+d.Name, names...)
		bt := body.Term
		if body.K == "nil" {
			bt = tInt(0)
		}
		if v.hidden(d.Name) {
			// used without its definition
			return r
		}
		// the base case, that needs no unfolding:
		if c, ok := d.Body.(*ECond); ok {
			b := v.eval(env, c.A)
			t := b.Term
			if b.K == "nil" {
				t = tInt(0)
			}
			if t != nil && t.Sort == rs {
				v.axioms = append(v.axioms, fmt.Sprintf("(forall (%s) (! (=> %s (= %s %s)) :pattern (%s)))",
					strings.Join(decl, " "), v.evalBool(env, c.C), lim, t, lim))
			}
		}
		v.axioms = append(v.axioms,
			fmt.Sprintf("(forall (%s) (! (= %s %s) :pattern (%s)))", strings.Join(decl, " "), app, lim, app),
			fmt.Sprintf("(forall (%s) (! (= %s %s) :pattern (%s)))", strings.Join(decl, " "), app, bt, app))
		v.needAxioms = true
		return r
	}
}

func (v *Verifier) applyRec(env *Env, d *Def, args []*Val) *Val {
	r := v.recDef(d)
	var ts []*Term
	for i, a := range args {
		a = v.coerce(env, a, d.Params[i].Type)
		ts = append(ts, a.Term)
		if a.K == "seq" {
			ts = append(ts, a.Off)
		}
	}
	for _, h := range r.heaps {
		ts = append(ts, v.heap2(env.st, h, r.sorts[h]))
	}
	t, k := v.resolveType(d.Result)
	op := "r!" + d.Name
	if env.recSelf == d.Name {
		op = "rl!" + d.Name
	}
	return &Val{T: t, K: k, Term: mk(v.specSort(t, k), op, ts...)}
}

// heap2 reads a heap and records the access.
func (v *Verifier) heap2(st *State, key, sort string) *Term {
	return v.heap(st, key, sort)
}

// listOf is the list of the first n elements of a sequence.
func (v *Verifier) listOf(s *Val, n *Term) *Val {
	_, es := arrayParts(s.Term.Sort)
	ls, nilc, snoc, k := "LI", "li.nil", "li.snoc", "list"
	switch es {
	case "Int":
	case "Str":
		ls, nilc, snoc, k = "LS", "ls.nil", "ls.snoc", "slist"
	default:
		serr("listof elements of sort %s", es)
	}
	f := "listof!" + ls
	if !v.c.declSet[f] {
		as := arraySort("Int", es)
		v.c.declare(f, ls, as, "Int", "Int")
		v.c.declare(f+"!l", ls, as, "Int", "Int")
		v.axioms = append(v.axioms,
			fmt.Sprintf("(forall ((a %s) (o Int) (n Int)) (! (= (%s a o n) (%s!l a o n)) :pattern ((%s a o n))))", as, f, f, f),
			fmt.Sprintf("(forall ((a %s) (o Int) (n Int)) (! (= (%s a o n) (ite (<= n 0) %s (%s (%s!l a o (- n 1)) (select a (idx o (- n 1)))))) :pattern ((%s a o n))))", as, f, nilc, snoc, f, f),
			// writes at or after the end don't matter (proved by induction on n, once and for all):
			fmt.Sprintf("(forall ((a %s) (o Int) (n Int) (i Int) (x %s)) (! (=> (>= i (+ o n)) (= (%s (store a i x) o n) (%s a o n))) :pattern ((%s (store a i x) o n))))", as, es, f, f, f),
			fmt.Sprintf("(forall ((a %s) (o Int) (n Int) (i Int) (x %s)) (! (=> (>= i (+ o n)) (= (%s!l (store a i x) o n) (%s!l a o n))) :pattern ((%s!l (store a i x) o n))))", as, es, f, f, f))
	}
	return &Val{K: k, Term: mk(ls, f, s.Term, s.Off, n)}
}

func (v *Verifier) pow2(t *Term) *Term {
	if n, ok := isInt(t); ok && n >= 0 && n < 62 {
		return tInt(1 << uint(n))
	}
	return mk("Int", "pow2", t)
}

func exprString(e Expr) string {
	switch x := e.(type) {
	case *EIdent:
		return x.Name
	case *EInt:
		return fmt.Sprint(x.N)
	case *EStr:
		return fmt.Sprintf("%q", x.S)
	case *EBool:
		return fmt.Sprint(x.B)
	case *ENil:
		return "nil"
	case *ESel:
		return exprString(x.X) + "." + x.Name
	case *EIndex:
		if x.I == nil {
			return exprString(x.X) + "[*]"
		}
		return exprString(x.X) + "[" + exprString(x.I) + "]"
	case *ECall:
		var as []string
		for _, a := range x.Args {
			as = append(as, exprString(a))
		}
		return exprString(x.Fn) + "(" + strings.Join(as, ", ") + ")"
	case *EUn:
		return x.Op + exprString(x.X)
	case *EBin:
		return "(" + exprString(x.X) + " " + x.Op + " " + exprString(x.Y) + ")"
	case *ECond:
		return "(" + exprString(x.C) + " ? " + exprString(x.A) + " : " + exprString(x.B) + ")"
	case *EQuant:
		return "quantifier"
	case *ELet:
		return "let"
	}
	return fmt.Sprintf("%T", e)
}
