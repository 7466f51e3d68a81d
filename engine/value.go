package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Val is the symbolic value of a program or specification expression.
type Val struct {
	T      types.Type // Go type, nil for specification-only values
	K      string     // kind of specification-only value: list, slist, seq, ref
	Term   *Term
	Fields []*Val // structs and tuples
	Addr   *Addr  // address of a field, element or cell
	Fn     *ssa.Function
	Bind   []*Val
	Off    *Term      // offset, for seq
	Elem   types.Type // element type, for seq
	Iter   *iterState
}

// Addr is a location.
type Addr struct {
	Heap string
	Sort string
	Ref  *Term
	Idx  *Term // for elements of slices
	T    types.Type
}

type iterState struct {
	key   string // key of the visited set in the state
	m     *Val
	isStr bool
}

// State is the symbolic heap.
type State struct {
	heaps map[string]*Term
	alloc *Term
	alt   bool // the other state of a lemma about two states: its heaps are unrelated
}

func (s *State) clone() *State {
	h := make(map[string]*Term, len(s.heaps))
	for k, v := range s.heaps {
		h[k] = v
	}
	return &State{heaps: h, alloc: s.alloc}
}

func (v *Verifier) isModule(p *types.Package) bool {
	if p == nil {
		return false
	}
	for _, m := range v.modules {
		if p.Path() == m || strings.HasPrefix(p.Path(), m+"/") {
			return true
		}
	}
	return false
}

// opaqueStruct tells whether values of the struct type are treated as atomic values.
func (v *Verifier) opaqueStruct(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok {
		return false
	}
	if _, ok := n.Underlying().(*types.Struct); !ok {
		return false
	}
	if v.isTransparent(n.Obj()) {
		return false
	}
	return !v.isModule(n.Obj().Pkg())
}

func (v *Verifier) isComposite(t types.Type) bool {
	if t == nil {
		return false
	}
	if _, ok := t.(*types.Tuple); ok {
		return true
	}
	_, ok := t.Underlying().(*types.Struct)
	return ok && !v.opaqueStruct(t)
}

func typeKey(t types.Type) string {
	return types.TypeString(types.Unalias(t), nil)
}

type unsupported struct{ msg string }

func unsup(f string, a ...interface{}) {
	panic(unsupported{fmt.Sprintf(f, a...)})
}

// goSort maps a Go type to a sort.
func (v *Verifier) goSort(t types.Type) string {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return "Bool"
		case u.Info()&types.IsUnsigned != 0:
			switch u.Kind() {
			case types.Uint8:
				return "(_ BitVec 8)"
			case types.Uint16:
				return "(_ BitVec 16)"
			case types.Uint32:
				return "(_ BitVec 32)"
			}
			return "(_ BitVec 64)"
		case u.Info()&types.IsInteger != 0:
			return "Int"
		case u.Info()&types.IsFloat != 0, u.Info()&types.IsComplex != 0:
			return "Flt"
		case u.Info()&types.IsString != 0:
			return "Str"
		case u.Kind() == types.UnsafePointer, u.Kind() == types.UntypedNil:
			return "Int"
		}
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return "Int"
	case *types.Slice:
		return "Slice"
	case *types.Interface:
		return "Iface"
	case *types.Struct:
		if v.opaqueStruct(t) {
			return "O_" + sanitize(typeKey(t))
		}
		if u.NumFields() == 0 {
			return "Int"
		}
	case *types.Array:
		return arraySort("Int", v.goSort(u.Elem()))
	}
	unsup("type %s has no sort", t)
	return ""
}

func bvWidth(sort string) int {
	var n int
	if _, err := fmt.Sscanf(sort, "(_ BitVec %d)", &n); err == nil {
		return n
	}
	return 0
}

func (v *Verifier) zeroTerm(t types.Type) *Term {
	s := v.goSort(t)
	switch {
	case s == "Bool":
		return tFalse
	case s == "Int":
		return tInt(0)
	case s == "Str":
		return v.c.strLit("")
	case s == "Slice":
		return mk("Slice", "mkslice", tInt(0), tInt(0), tInt(0), tInt(0))
	case s == "Iface":
		return konst("inil", "Iface")
	case bvWidth(s) > 0:
		return bvLit(0, bvWidth(s))
	case strings.HasPrefix(s, "(Array"):
		n := "zero!" + sanitize(s)
		v.c.declare(n, s)
		return konst(n, s)
	}
	n := "zero!" + sanitize(s)
	v.c.declare(n, s)
	return konst(n, s)
}

func bvLit(n uint64, w int) *Term {
	return konst(fmt.Sprintf("(_ bv%d %d)", n, w), fmt.Sprintf("(_ BitVec %d)", w))
}

func (v *Verifier) zeroVal(t types.Type) *Val {
	if tp, ok := t.(*types.Tuple); ok {
		r := &Val{T: t}
		for i := 0; i < tp.Len(); i++ {
			r.Fields = append(r.Fields, v.zeroVal(tp.At(i).Type()))
		}
		return r
	}
	if v.isComposite(t) {
		st := t.Underlying().(*types.Struct)
		r := &Val{T: t}
		for i := 0; i < st.NumFields(); i++ {
			r.Fields = append(r.Fields, v.zeroVal(st.Field(i).Type()))
		}
		return r
	}
	return &Val{T: t, Term: v.zeroTerm(t)}
}

// freshVal creates an unconstrained value of the type.
func (v *Verifier) freshVal(hint string, t types.Type) *Val {
	if tp, ok := t.(*types.Tuple); ok {
		r := &Val{T: t}
		for i := 0; i < tp.Len(); i++ {
			r.Fields = append(r.Fields, v.freshVal(fmt.Sprintf("%s.%d", hint, i), tp.At(i).Type()))
		}
		return r
	}
	if v.isComposite(t) {
		st := t.Underlying().(*types.Struct)
		r := &Val{T: t}
		for i := 0; i < st.NumFields(); i++ {
			r.Fields = append(r.Fields, v.freshVal(hint+"."+st.Field(i).Name(), st.Field(i).Type()))
		}
		return r
	}
	return &Val{T: t, Term: v.c.freshConst(hint, v.goSort(t))}
}

// wf returns the facts that hold for every well formed value of the type: references are allocated
// and slices have consistent lengths.
func (v *Verifier) wf(x *Val, alloc *Term) *Term {
	if x.T == nil {
		return tTrue
	}
	if x.Fields != nil {
		var cs []*Term
		for _, f := range x.Fields {
			cs = append(cs, v.wf(f, alloc))
		}
		return tAnd(cs...)
	}
	if x.Term == nil {
		return tTrue
	}
	return wfTerm(x.Term, x.T, alloc)
}

func wfTerm(t *Term, typ types.Type, alloc *Term) *Term {
	switch typ.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Chan:
		return tLt(mk("Int", "base", t), alloc)
	case *types.Slice:
		return tAnd(
			tLt(mk("Int", "base", mk("Int", "sarr", t)), alloc),
			tLe(tInt(0), mk("Int", "soff", t)),
			tLe(tInt(0), mk("Int", "slen", t)),
			tLe(mk("Int", "slen", t), mk("Int", "scap", t)),
			tImp(tEq(mk("Int", "sarr", t), tInt(0)), tEq(t, mk("Slice", "mkslice", tInt(0), tInt(0), tInt(0), tInt(0)))),
		)
	case *types.Interface:
		return tAnd(
			tImp(mk("Bool", "(_ is iref)", t), tLt(mk("Int", "base", mk("Int", "irefv", t)), alloc)),
			tImp(mk("Bool", "(_ is islice)", t), tAnd(
				tLt(mk("Int", "base", mk("Int", "sarr", mk("Slice", "islicev", t))), alloc),
				tLe(tInt(0), mk("Int", "slen", mk("Slice", "islicev", t))))),
		)
	}
	return tTrue
}

// ---- heap access ----

func (v *Verifier) heap(st *State, key, sort string) *Term {
	if v.readLog != nil {
		if st.alt {
			v.readLog["alt:"+key] = sort
		} else {
			v.readLog[key] = sort
		}
	}
	if t, ok := st.heaps[key]; ok {
		return t
	}
	if st.alt {
		v.registry[key] = sort
		t := v.c.freshConst("HA", sort)
		st.heaps[key] = t
		return t
	}
	return v.initHeap(key, sort)
}

func (v *Verifier) initHeap(key, sort string) *Term {
	if t, ok := v.init0[key]; ok {
		return t
	}
	v.registry[key] = sort
	n := "H0!" + sanitize(strings.NewReplacer("github.com/openshift-online/ocm-api-metamodel/", "").Replace(key))
	if v.c.declSet[n] {
		n = v.c.fresh(n)
	}
	v.c.declare(n, sort)
	t := konst(n, sort)
	v.init0[key] = t
	// Lemmas are about any heap, not only about well formed ones:
	if f := v.heapWF(key, t, v.alloc0); f != nil && v.provingLemma == "" {
		v.axioms = append(v.axioms, f.String())
	}
	return t
}

// heapWF is the well formedness axiom of a heap: allocated objects only refer to allocated objects.
func (v *Verifier) heapWF(key string, h *Term, alloc *Term) *Term {
	typ := v.heapType[key]
	if typ == nil {
		return nil
	}
	is, es := arrayParts(h.Sort)
	_ = is
	r := konst("r", "Int")
	var sel *Term
	vars := "((r Int))"
	switch {
	case strings.HasPrefix(key, "E|"):
		vars = "((r Int) (i Int))"
		sel = tSelect(tSelect(h, r), konst("i", "Int"))
	case strings.HasPrefix(key, "MV|"):
		ks, _ := arrayParts(es)
		vars = fmt.Sprintf("((r Int) (i %s))", ks)
		sel = tSelect(tSelect(h, r), konst("i", ks))
	default:
		sel = tSelect(h, r)
	}
	b := wfTerm(sel, typ, alloc)
	if b.Op == "true" {
		return nil
	}
	body := tImp(tLt(mk("Int", "base", r), alloc), b)
	return mk("Bool", fmt.Sprintf("forall %s (! %s :pattern (%s))", vars, body, sel), []*Term{}...).asRaw()
}

// asRaw wraps an already printed quantifier.
func (t *Term) asRaw() *Term {
	return &Term{Op: "(" + t.Op + ")", Sort: "Bool"}
}

func (v *Verifier) fieldKey(st types.Type, i int) (string, types.Type) {
	s := st.Underlying().(*types.Struct)
	f := s.Field(i)
	k := "F|" + typeKey(st) + "." + f.Name()
	return k, f.Type()
}

func (v *Verifier) noteHeap(key string, t types.Type) {
	if v.heapType[key] == nil {
		v.heapType[key] = t
	}
}

// fieldAddr computes the address of field i of the object at ref.
func (v *Verifier) fieldAddr(st types.Type, ref *Term, i int) *Val {
	key, ft := v.fieldKey(st, i)
	if v.isComposite(ft) {
		return &Val{T: types.NewPointer(ft), Term: v.subRef(key, ref)}
	}
	v.noteHeap(key, ft)
	return &Val{T: types.NewPointer(ft), Addr: &Addr{Heap: key, Sort: arraySort("Int", v.goSort(ft)), Ref: ref, T: ft}}
}

// subRef is the reference of a struct embedded in another one.
func (v *Verifier) subRef(key string, ref *Term) *Term {
	n := "sub!" + sanitize(strings.NewReplacer("github.com/openshift-online/ocm-api-metamodel/", "").Replace(key))
	if !v.c.declSet[n] {
		v.c.declare(n, "Int", "Int")
		inv := n + "!inv"
		v.c.declare(inv, "Int", "Int")
		v.axioms = append(v.axioms,
			fmt.Sprintf("(forall ((r Int)) (! (and (= (%s (%s r)) r) (= (base (%s r)) (base r)) (not (= (%s r) 0))) :pattern ((%s r))))", inv, n, n, n, n))
	}
	return mk("Int", n, ref)
}

func (v *Verifier) elemRef(elem types.Type, arr, idx *Term) *Term {
	n := "elemref!" + sanitize(typeKey(elem))
	if !v.c.declSet[n] {
		v.c.declare(n, "Int", "Int", "Int")
		v.c.declare(n+"!a", "Int", "Int")
		v.c.declare(n+"!i", "Int", "Int")
		v.axioms = append(v.axioms,
			fmt.Sprintf("(forall ((a Int) (i Int)) (! (and (= (%s!a (%s a i)) a) (= (%s!i (%s a i)) i) (= (base (%s a i)) (base a)) (not (= (%s a i) 0))) :pattern ((%s a i))))", n, n, n, n, n, n, n))
	}
	return mk("Int", n, arr, idx)
}

func (v *Verifier) elemAddr(elem types.Type, arr, idx *Term) *Val {
	if v.isComposite(elem) {
		return &Val{T: types.NewPointer(elem), Term: v.elemRef(elem, arr, idx)}
	}
	key := "E|" + typeKey(elem)
	v.noteHeap(key, elem)
	return &Val{T: types.NewPointer(elem), Addr: &Addr{Heap: key, Sort: arraySort("Int", arraySort("Int", v.goSort(elem))), Ref: arr, Idx: idx, T: elem}}
}

func (v *Verifier) cellAddr(t types.Type, ref *Term) *Addr {
	key := "C|" + typeKey(t)
	v.noteHeap(key, t)
	return &Addr{Heap: key, Sort: arraySort("Int", v.goSort(t)), Ref: ref, T: t}
}

// ghostAddr returns the location of a ghost field.
func (v *Verifier) ghostAddr(g *Ghost, ref *Term) *Addr {
	t, k := v.resolveType(g.Sort)
	return &Addr{Heap: "G|" + g.Type.String() + "." + g.Name, Sort: arraySort("Int", v.specSort(t, k)), Ref: ref, T: t}
}

func (v *Verifier) loadAddr(st *State, a *Addr) *Term {
	h := v.heap(st, a.Heap, a.Sort)
	if a.Idx != nil {
		return tSelect(tSelect(h, a.Ref), a.Idx)
	}
	return tSelect(h, a.Ref)
}

func (v *Verifier) storeAddr(st *State, a *Addr, t *Term) {
	h := v.heap(st, a.Heap, a.Sort)
	v.registry[a.Heap] = a.Sort
	var n *Term
	if a.Idx != nil {
		n = tStore(h, a.Ref, tStore(tSelect(h, a.Ref), a.Idx, t))
		if a.Idx.Op == "idx" {
			// make the index available for patterns
			v.c.declare("touch!idx", "Bool", "Int")
			v.c.fact(mk("Bool", "touch!idx", a.Idx))
		}
	} else {
		n = tStore(h, a.Ref, t)
	}
	st.heaps[a.Heap] = v.c.name("H", n)
	v.written[a.Heap] = true
}

// deref loads the value pointed to by p, of type t.
func (v *Verifier) deref(st *State, p *Val, t types.Type) *Val {
	if p.Addr != nil {
		return &Val{T: t, Term: v.loadAddr(st, p.Addr)}
	}
	if v.isComposite(t) {
		s := t.Underlying().(*types.Struct)
		r := &Val{T: t}
		for i := 0; i < s.NumFields(); i++ {
			fa := v.fieldAddr(t, p.Term, i)
			r.Fields = append(r.Fields, v.deref(st, fa, s.Field(i).Type()))
		}
		return r
	}
	if at, ok := t.Underlying().(*types.Array); ok {
		if v.isComposite(at.Elem()) {
			unsup("load of array of structs")
		}
		key := "E|" + typeKey(at.Elem())
		v.noteHeap(key, at.Elem())
		h := v.heap(st, key, arraySort("Int", arraySort("Int", v.goSort(at.Elem()))))
		return &Val{T: t, Term: tSelect(h, p.Term)}
	}
	return &Val{T: t, Term: v.loadAddr(st, v.cellAddr(t, p.Term))}
}

func (v *Verifier) assign(st *State, p *Val, t types.Type, x *Val) {
	if p.Addr != nil {
		v.storeAddr(st, p.Addr, v.term(x))
		return
	}
	if v.isComposite(t) {
		s := t.Underlying().(*types.Struct)
		for i := 0; i < s.NumFields(); i++ {
			v.assign(st, v.fieldAddr(t, p.Term, i), s.Field(i).Type(), x.Fields[i])
		}
		return
	}
	if at, ok := t.Underlying().(*types.Array); ok {
		if v.isComposite(at.Elem()) {
			unsup("store of array of structs")
		}
		key := "E|" + typeKey(at.Elem())
		srt := arraySort("Int", arraySort("Int", v.goSort(at.Elem())))
		v.noteHeap(key, at.Elem())
		v.registry[key] = srt
		st.heaps[key] = v.c.name("H", tStore(v.heap(st, key, srt), p.Term, x.Term))
		v.written[key] = true
		return
	}
	v.storeAddr(st, v.cellAddr(t, p.Term), v.term(x))
}

// term returns the term of an atomic value.
func (v *Verifier) term(x *Val) *Term {
	if x.Term != nil {
		return x.Term
	}
	if x.Fn != nil {
		n := "fn!" + sanitize(x.Fn.String())
		v.c.declare(n, "Int")
		return konst(n, "Int")
	}
	if x.Addr != nil {
		// The address of a field or element escapes; it is represented by an injective function of
		// the location. Loads and stores through it aren't tracked.
		unsup("address of %s escapes", x.Addr.Heap)
	}
	unsup("composite value used as atomic value (%v)", x.T)
	return nil
}

// newObj allocates a fresh reference.
func (v *Verifier) newObj(st *State, hint string) *Term {
	r := v.c.name(hint, mk("Int", "+", st.alloc, tInt(0)))
	v.c.fact(tEq(mk("Int", "base", r), r))
	st.alloc = v.c.name("alloc", tAdd(r, tInt(1)))
	return r
}

// isTransparent tells if the contracts ask to see the fields of the struct of another module.
func (v *Verifier) isTransparent(o *types.TypeName) bool {
	for _, t := range v.spec.Transparent {
		if o.Pkg() != nil && t.Kind == "name" && t.Name == o.Name() && v.spec.Imports[t.Pkg] == o.Pkg().Path() {
			return true
		}
	}
	return false
}
