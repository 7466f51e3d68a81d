package main

// Generation of verification conditions: symbolic execution of the SSA form of the functions. Blocks
// are visited in topological order, states are merged at joins, loops are cut with invariants, calls
// to functions with contracts use the contract, other functions of the module are inlined.

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type frame struct {
	fn     *ssa.Function
	path   string
	vals   map[ssa.Value]*Val
	depth  int
	parent *frame
	defers []*ssa.Defer
	loops  map[*ssa.BasicBlock]*loopInfo
}

type loopInfo struct {
	header  *ssa.BasicBlock
	blocks  map[*ssa.BasicBlock]bool
	latches []*ssa.BasicBlock
	key     string
	cands   []*boundCand
	// state at the header
	hst      *State
	entrySt  *State
	visHead  map[string]*Term
	guard    *Term
	headVals map[ssa.Value]*Val
	// number of iterations completed at the header
	iter *Term
}

type boundCand struct {
	c     *Cand
	build func(get func(ssa.Value) *Val, st *State) *Term
}

type edgeIn struct {
	from  *ssa.BasicBlock
	guard *Term
	st    *State
}

type retInfo struct {
	guard *Term
	st    *State
	vals  []*Val
}

func rpo(fn *ssa.Function) []*ssa.BasicBlock {
	seen := map[*ssa.BasicBlock]bool{}
	var out []*ssa.BasicBlock
	var visit func(b *ssa.BasicBlock)
	visit = func(b *ssa.BasicBlock) {
		seen[b] = true
		for i := len(b.Succs) - 1; i >= 0; i-- {
			if !seen[b.Succs[i]] {
				visit(b.Succs[i])
			}
		}
		out = append(out, b)
	}
	visit(fn.Blocks[0])
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

func findLoops(fn *ssa.Function, path string) map[*ssa.BasicBlock]*loopInfo {
	loops := map[*ssa.BasicBlock]*loopInfo{}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := loops[s]
				if l == nil {
					l = &loopInfo{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}, key: fmt.Sprintf("%s@%d", path, s.Index)}
					loops[s] = l
				}
				l.latches = append(l.latches, b)
				stack := []*ssa.BasicBlock{b}
				for len(stack) > 0 {
					x := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					if l.blocks[x] {
						continue
					}
					l.blocks[x] = true
					stack = append(stack, x.Preds...)
				}
			}
		}
	}
	return loops
}

// runFunc executes a function body and returns the merged result.
func (v *Verifier) runFunc(f *frame, guard *Term, st *State) (rets []retInfo) {
	if len(f.fn.Blocks) == 0 {
		unsup("function %s has no body", f.fn)
	}
	f.loops = findLoops(f.fn, f.path)
	order := rpo(f.fn)
	ins := map[*ssa.BasicBlock][]edgeIn{}
	ins[order[0]] = []edgeIn{{nil, guard, st}}
	for _, b := range order {
		edges := ins[b]
		if len(edges) == 0 {
			continue
		}
		g, cur := v.mergeEdges(b, edges)
		if g.Op == "false" {
			continue
		}
		if l := f.loops[b]; l != nil {
			cur = v.enterLoop(f, l, edges, g, cur)
		} else {
			for _, ins := range b.Instrs {
				phi, ok := ins.(*ssa.Phi)
				if !ok {
					break
				}
				f.vals[phi] = v.mergePhi(f, phi, b, edges)
			}
		}
		g, cur, ret := v.runBlock(f, b, g, cur)
		if ret != nil {
			rets = append(rets, *ret)
			continue
		}
		if g == nil {
			continue // panics
		}
		last := b.Instrs[len(b.Instrs)-1]
		var conds []*Term
		switch t := last.(type) {
		case *ssa.If:
			c := v.val(f, t.Cond).Term
			conds = []*Term{tAnd(g, c), tAnd(g, tNot(c))}
		case *ssa.Jump:
			conds = []*Term{g}
		}
		for i, s := range b.Succs {
			eg := conds[i]
			if eg.Op == "false" {
				continue
			}
			eg = v.c.name("e", eg)
			if l := f.loops[s]; l != nil && s.Dominates(b) {
				v.backEdge(f, l, b, eg, cur)
				continue
			}
			ins[s] = append(ins[s], edgeIn{b, eg, cur})
		}
	}
	return rets
}

func (v *Verifier) mergeEdges(b *ssa.BasicBlock, edges []edgeIn) (*Term, *State) {
	if len(edges) == 1 {
		return edges[0].guard, edges[0].st.clone()
	}
	var gs []*Term
	for _, e := range edges {
		gs = append(gs, e.guard)
	}
	g := v.c.name(fmt.Sprintf("reach%d", b.Index), tOr(gs...))
	return g, v.mergeStates(edges)
}

func (v *Verifier) mergeStates(edges []edgeIn) *State {
	if len(edges) == 1 {
		return edges[0].st.clone()
	}
	keys := map[string]bool{}
	for _, e := range edges {
		for k := range e.st.heaps {
			keys[k] = true
		}
	}
	st := &State{heaps: map[string]*Term{}}
	var ks []string
	for k := range keys {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		t := v.heapAny(edges[len(edges)-1].st, k)
		same := true
		for i := len(edges) - 2; i >= 0; i-- {
			h := v.heapAny(edges[i].st, k)
			if h.String() != t.String() {
				same = false
			}
			t = tIte(edges[i].guard, h, t)
		}
		if same {
			st.heaps[k] = v.heapAny(edges[0].st, k)
		} else {
			st.heaps[k] = v.c.name("Hm", t)
		}
	}
	a := edges[len(edges)-1].st.alloc
	for i := len(edges) - 2; i >= 0; i-- {
		a = tIte(edges[i].guard, edges[i].st.alloc, a)
	}
	st.alloc = v.c.name("alloc", a)
	if len(a.Args) > 0 {
		for _, e := range edges {
			v.c.fact(tImp(e.guard, tLe(e.st.alloc, st.alloc)))
		}
		v.c.fact(tLe(v.alloc0, st.alloc))
	}
	return st
}

func (v *Verifier) heapAny(st *State, key string) *Term {
	if t, ok := st.heaps[key]; ok {
		return t
	}
	if strings.HasPrefix(key, "VIS|") {
		// Visited set of an iterator that doesn't exist in this path:
		n := "novis!" + sanitize(v.registry[key])
		v.c.declare(n, v.registry[key])
		return konst(n, v.registry[key])
	}
	return v.initHeap(key, v.registry[key])
}

func (v *Verifier) mergePhi(f *frame, phi *ssa.Phi, b *ssa.BasicBlock, edges []edgeIn) *Val {
	var xs []*Val
	var gs []*Term
	for _, e := range edges {
		for i, p := range b.Preds {
			if p == e.from {
				xs = append(xs, v.val(f, phi.Edges[i]))
				gs = append(gs, e.guard)
				break
			}
		}
	}
	return v.nameVal(phi.Name(), v.mergeVals(gs, xs))
}

func (v *Verifier) mergeVals(gs []*Term, xs []*Val) *Val {
	r := xs[len(xs)-1]
	for i := len(xs) - 2; i >= 0; i-- {
		r = v.iteVal(gs[i], xs[i], r)
	}
	return r
}

func (v *Verifier) iteVal(g *Term, a, b *Val) *Val {
	if a == b {
		return a
	}
	if a.Fields != nil || b.Fields != nil {
		if len(a.Fields) != len(b.Fields) {
			unsup("merge of different composites")
		}
		r := &Val{T: a.T}
		for i := range a.Fields {
			r.Fields = append(r.Fields, v.iteVal(g, a.Fields[i], b.Fields[i]))
		}
		return r
	}
	if a.Addr != nil && b.Addr != nil {
		if a.Addr.Heap == b.Addr.Heap {
			ad := *a.Addr
			ad.Ref = tIte(g, a.Addr.Ref, b.Addr.Ref)
			if ad.Idx != nil {
				ad.Idx = tIte(g, a.Addr.Idx, b.Addr.Idx)
			}
			return &Val{T: a.T, Addr: &ad}
		}
		unsup("merge of different addresses")
	}
	if a.Fn != nil && b.Fn == a.Fn && len(a.Bind) == 0 {
		return a
	}
	if a.Iter != nil {
		return a
	}
	r := &Val{T: a.T, K: a.K}
	r.Term = tIte(g, v.term(a), v.term(b))
	return r
}

func (v *Verifier) nameVal(hint string, x *Val) *Val {
	if x.Fields != nil {
		r := *x
		r.Fields = nil
		for _, f := range x.Fields {
			r.Fields = append(r.Fields, v.nameVal(hint, f))
		}
		return &r
	}
	if x.Term == nil || len(x.Term.Args) == 0 {
		return x
	}
	r := *x
	r.Term = v.c.name(hint, x.Term)
	return &r
}

// val returns the symbolic value of an SSA value.
func (v *Verifier) val(f *frame, x ssa.Value) *Val {
	if r, ok := f.vals[x]; ok {
		return r
	}
	switch c := x.(type) {
	case *ssa.Const:
		if c.Value == nil {
			return v.zeroVal(c.Type())
		}
		return v.constVal(c.Value, c.Type())
	case *ssa.Global:
		if o, ok := c.Object().(*types.Var); ok {
			return &Val{T: c.Type(), Term: v.globalRef(o)}
		}
		unsup("global %s", c)
	case *ssa.Function:
		return &Val{T: c.Type(), Fn: c}
	case *ssa.Builtin:
		return &Val{T: c.Type()}
	}
	unsup("value %s (%T) not available", x.Name(), x)
	return nil
}

func (v *Verifier) globalRef(o *types.Var) *Term {
	k := o.Pkg().Path() + "." + o.Name()
	n, ok := v.globals[k]
	if !ok {
		n = -int64(len(v.globals)) - 1
		v.globals[k] = n
		v.axioms = append(v.axioms, fmt.Sprintf("(= (base (- %d)) (- %d))", -n, -n))
	}
	return tInt(n)
}

// ---- loops ----

func (v *Verifier) enterLoop(f *frame, l *loopInfo, edges []edgeIn, g *Term, cur *State) *State {
	b := l.header
	v.loopSeen[l.key] = true
	l.entrySt = cur
	l.guard = g
	// Values at the entry:
	entry := map[ssa.Value]*Val{}
	head := map[ssa.Value]*Val{}
	var phis []*ssa.Phi
	for _, ins := range b.Instrs {
		phi, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, phi)
		entry[phi] = v.mergePhi(f, phi, b, edges)
	}
	// Havoc:
	st := cur.clone()
	ws := v.loopWrites[l.key]
	var ks []string
	for k := range ws {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	st.alloc = v.c.freshConst("allocL", "Int")
	v.c.fact(tImp(g, tLe(cur.alloc, st.alloc)))
	v.c.fact(tLe(v.alloc0, st.alloc))
	for _, k := range ks {
		if _, ok := v.registry[k]; !ok {
			continue
		}
		if strings.HasPrefix(k, "VIS|") {
			if _, ok := cur.heaps[k]; !ok {
				continue
			}
		}
		h := v.c.freshConst("HL", v.registry[k])
		st.heaps[k] = h
		if w := v.heapWF(k, h, st.alloc); w != nil {
			v.c.fact(w)
		}
	}
	for _, phi := range phis {
		x := v.havocLike(phi.Name()+"."+phi.Comment, phi.Type(), entry[phi])
		head[phi] = x
		v.c.fact(tImp(g, v.wf(x, st.alloc)))
		f.vals[phi] = x
	}
	l.hst = st.clone()
	l.headVals = head
	l.iter = v.c.freshConst("iter", "Int")
	v.c.fact(tLe(tInt(0), l.iter))
	defer func() { v.curIter = nil }()
	// Candidates:
	l.cands = v.loopCandidates(f, l, phis, entry, cur, st, ks)
	getE := func(x ssa.Value) *Val {
		if r, ok := entry[x]; ok {
			return r
		}
		return v.val(f, x)
	}
	getH := func(x ssa.Value) *Val { return v.val(f, x) }
	for _, bc := range l.cands {
		if bc.c.dead {
			continue
		}
		v.curIter = tInt(0)
		t, ok := v.tryBuild(bc, getE, cur)
		if !ok {
			bc.c.dead = true
			bc.c.killer = "not applicable"
			continue
		}
		v.c.check(&Check{Name: l.key, Kind: "inv-entry", Detail: bc.c.label}, tImp(g, t), bc.c)
	}
	for _, bc := range l.cands {
		if bc.c.dead {
			continue
		}
		v.curIter = l.iter
		t, ok := v.tryBuild(bc, getH, st)
		if !ok {
			bc.c.dead = true
			continue
		}
		v.c.candFact(bc.c, tImp(g, t))
	}
	return st
}

func (v *Verifier) tryBuild(bc *boundCand, get func(ssa.Value) *Val, st *State) (t *Term, ok bool) {
	defer func() {
		if e := recover(); e != nil {
			switch e.(type) {
			case specError, unsupported, noVisited:
				if s, is := e.(specError); is && v.verbose {
					fmt.Printf("   candidate %s: %s\n", bc.c.label, s.msg)
				}
				t, ok = nil, false
				return
			}
			panic(e)
		}
	}()
	return bc.build(get, st), true
}

// havocLike creates a fresh value with the same shape; closures and iterators that are the same on
// entry are kept.
func (v *Verifier) havocLike(hint string, t types.Type, like *Val) *Val {
	if like.Addr != nil {
		unsup("address in loop variable")
	}
	return v.freshVal(hint, t)
}

func (v *Verifier) backEdge(f *frame, l *loopInfo, from *ssa.BasicBlock, g *Term, st *State) {
	// Record the heaps changed by the loop:
	for k, t := range st.heaps {
		h, ok := l.hst.heaps[k]
		if !ok {
			if strings.HasPrefix(k, "VIS|") {
				continue // iterator created inside the loop
			}
			h = v.initHeap(k, v.registry[k])
		}
		if h.String() != t.String() {
			if v.loopWrites[l.key] == nil {
				v.loopWrites[l.key] = map[string]bool{}
			}
			if !v.loopWrites[l.key][k] {
				v.loopWrites[l.key][k] = true
				v.changed = true
			}
		}
	}
	idx := -1
	for i, p := range l.header.Preds {
		if p == from {
			idx = i
		}
	}
	get := func(x ssa.Value) *Val {
		if phi, ok := x.(*ssa.Phi); ok && phi.Block() == l.header {
			return v.val(f, phi.Edges[idx])
		}
		return v.val(f, x)
	}
	v.curIter = tAdd(l.iter, tInt(1))
	defer func() { v.curIter = nil }()
	for _, bc := range l.cands {
		if bc.c.dead {
			continue
		}
		t, ok := v.tryBuild(bc, get, st)
		if !ok {
			bc.c.dead = true
			continue
		}
		v.c.check(&Check{Name: l.key, Kind: "inv-preserved", Detail: bc.c.label}, tImp(g, t), bc.c)
	}
	// Step conditions:
	v.stepChecks(f, l, g, st, get)
}

func (v *Verifier) addCand(l *loopInfo, label string, user bool, build func(get func(ssa.Value) *Val, st *State) *Term) {
	key := l.key + "#" + label
	c := v.cands[key]
	if c == nil {
		c = &Cand{id: len(v.cands), label: label, user: user, loop: l.key}
		v.cands[key] = c
		v.candOrder = append(v.candOrder, key)
	}
	if c.dead {
		return
	}
	l.cands = append(l.cands, &boundCand{c, build})
}

func (v *Verifier) loopCandidates(f *frame, l *loopInfo, phis []*ssa.Phi, entry map[ssa.Value]*Val, entrySt, headSt *State, ks []string) []*boundCand {
	l.cands = nil
	// 1. Frame candidates: what existed before doesn't change.
	for _, k := range ks {
		k := k
		srt := v.registry[k]
		if strings.HasPrefix(k, "VIS|") {
			// visited is a subset of the domain; handled by Next
			continue
		}
		h0 := v.heapAny(entrySt, k)
		a0 := entrySt.alloc
		frameOf := func(h0 *Term, a0 *Term, except func(r *Term) *Term) func(get func(ssa.Value) *Val, st *State) *Term {
			return func(get func(ssa.Value) *Val, st *State) *Term {
				h := v.heap(st, k, srt)
				if h.String() == h0.String() {
					return tTrue
				}
				r := konst("r", "Int")
				c := tLt(mk("Int", "base", r), a0)
				if except != nil {
					c = tAnd(c, tNot(except(r)))
				}
				body := tImp(c, tEq(tSelect(h, r), tSelect(h0, r)))
				return &Term{Op: fmt.Sprintf("(forall ((r Int)) (! %s :pattern (%s)))", body, tSelect(h, r)), Sort: "Bool"}
			}
		}
		v.addCand(l, "frame-loop:"+k, false, frameOf(h0, a0, nil))
		init := v.initHeap(k, srt)
		v.addCand(l, "frame-func:"+k, false, frameOf(init, v.alloc0, nil))
		if ex := v.modExcept(k); ex != nil {
			v.addCand(l, "frame-mod:"+k, false, frameOf(init, v.alloc0, ex))
		}
	}
	// 2. Bounds of integer variables.
	for _, phi := range phis {
		phi := phi
		bt, ok := phi.Type().Underlying().(*types.Basic)
		if !ok || bt.Info()&types.IsInteger == 0 || bt.Info()&types.IsUnsigned != 0 {
			continue
		}
		if n, ok := isInt(entry[phi].Term); ok {
			v.addCand(l, fmt.Sprintf("lower:%s>=%d", phi.Name(), n), false, func(get func(ssa.Value) *Val, st *State) *Term {
				return tLe(tInt(n), get(phi).Term)
			})
			v.addCand(l, fmt.Sprintf("upper:%s<=%d", phi.Name(), n), false, func(get func(ssa.Value) *Val, st *State) *Term {
				return tLe(get(phi).Term, tInt(n))
			})
		} else {
			e := entry[phi].Term
			v.addCand(l, fmt.Sprintf("lower:%s>=entry", phi.Name()), false, func(get func(ssa.Value) *Val, st *State) *Term {
				return tLe(e, get(phi).Term)
			})
			v.addCand(l, fmt.Sprintf("upper:%s<=entry", phi.Name()), false, func(get func(ssa.Value) *Val, st *State) *Term {
				return tLe(get(phi).Term, e)
			})
		}
		for _, bound := range v.loopBounds(f, l, phi) {
			bound := bound
			for d := int64(-1); d <= 1; d++ {
				d := d
				v.addCand(l, fmt.Sprintf("upper:%s<=%s%+d", phi.Name(), bound.Name(), d), false, func(get func(ssa.Value) *Val, st *State) *Term {
					b := get(bound).Term
					if _, ok := bound.Type().Underlying().(*types.Slice); ok {
						b = mk("Int", "slen", b)
					}
					return tLe(get(phi).Term, tAdd(b, tInt(d)))
				})
			}
		}
		v.addCand(l, fmt.Sprintf("lower:%s>=-1", phi.Name()), false, func(get func(ssa.Value) *Val, st *State) *Term {
			return tLe(tInt(-1), get(phi).Term)
		})
	}
	// 3. Slices that grow in the loop own their arrays.
	var slices []*ssa.Phi
	for _, phi := range phis {
		phi := phi
		if _, ok := phi.Type().Underlying().(*types.Slice); !ok {
			continue
		}
		slices = append(slices, phi)
		fresh := func(a0 *Term) func(get func(ssa.Value) *Val, st *State) *Term {
			return func(get func(ssa.Value) *Val, st *State) *Term {
				t := get(phi).Term
				return tOr(tEq(mk("Int", "scap", t), tInt(0)), tLe(a0, mk("Int", "base", mk("Int", "sarr", t))))
			}
		}
		v.addCand(l, "fresh-loop:"+phi.Name(), false, fresh(entrySt.alloc))
		v.addCand(l, "fresh-func:"+phi.Name(), false, fresh(v.alloc0))
	}
	for i, a := range slices {
		for _, b := range slices[:i] {
			a, b := a, b
			if !types.Identical(a.Type().Underlying(), b.Type().Underlying()) {
				continue
			}
			v.addCand(l, "apart:"+a.Name()+","+b.Name(), false, func(get func(ssa.Value) *Val, st *State) *Term {
				x, y := get(a).Term, get(b).Term
				return tOr(tEq(mk("Int", "scap", x), tInt(0)), tEq(mk("Int", "scap", y), tInt(0)),
					tNot(tEq(mk("Int", "base", mk("Int", "sarr", x)), mk("Int", "base", mk("Int", "sarr", y)))))
			})
		}
	}
	// 4. Templates of the contract.
	v.templateCands(f, l, phis, entrySt)
	return l.cands
}

// loopBounds finds the values the loop variable is compared with. A slice stands for its length.
func (v *Verifier) loopBounds(f *frame, l *loopInfo, phi *ssa.Phi) []ssa.Value {
	var out []ssa.Value
	seen := map[ssa.Value]bool{}
	derived := map[ssa.Value]bool{phi: true}
	for i, e := range phi.Edges {
		if l.blocks[phi.Block().Preds[i]] {
			derived[e] = true
		}
	}
	for b := range l.blocks {
		for _, ins := range b.Instrs {
			bo, ok := ins.(*ssa.BinOp)
			if !ok {
				continue
			}
			switch bo.Op {
			case token.LSS, token.LEQ, token.GTR, token.GEQ, token.NEQ, token.EQL:
			default:
				continue
			}
			var other ssa.Value
			if derived[bo.X] {
				other = bo.Y
			} else if derived[bo.Y] {
				other = bo.X
			} else {
				continue
			}
			if seen[other] {
				continue
			}
			seen[other] = true
			// the length of a slice that doesn't change in the loop:
			if c, ok := other.(*ssa.Call); ok && l.blocks[c.Block()] {
				if fn, ok := c.Call.Value.(*ssa.Builtin); ok && fn.Name() == "len" {
					if _, ok := c.Call.Args[0].Type().Underlying().(*types.Slice); ok && !seen[c.Call.Args[0]] {
						other = c.Call.Args[0]
						seen[other] = true
					}
				}
			}
			if _, ok := f.vals[other]; !ok {
				if _, isC := other.(*ssa.Const); !isC {
					continue
				}
			}
			// it has to be defined outside of the loop:
			if ins, ok := other.(ssa.Instruction); ok && l.blocks[ins.Block()] {
				continue
			}
			out = append(out, other)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Name() < out[j].Name() })
	return out
}

// callsNamed says if the block calls the function or method with the given name, directly or through functions without
// contract.
func (v *Verifier) callsNamed(b *ssa.BasicBlock, name string, depth int) bool {
	for _, in := range b.Instrs {
		c, ok := in.(ssa.CallInstruction)
		if !ok {
			continue
		}
		if m := c.Common().Method; m != nil && m.Name() == name {
			return true
		}
		fn := c.Common().StaticCallee()
		if fn == nil {
			continue
		}
		if fn.Name() == name {
			return true
		}
		if depth > 0 && v.contracts[fullName(fn)] == nil {
			for _, x := range fn.Blocks {
				if v.callsNamed(x, name, depth-1) {
					return true
				}
			}
		}
	}
	return false
}

// templateCands instantiates the invariant templates of the contract with the variables in scope.
func (v *Verifier) templateCands(f *frame, l *loopInfo, phis []*ssa.Phi, entrySt *State) {
	if v.cur == nil {
		return
	}
	scope := v.scopeValues(f, l, phis)
	for ti, tpl := range v.cur.Invs {
		tpl := tpl
		if tpl.Calls != "" {
			found := false
			for b := range l.blocks {
				found = found || v.callsNamed(b, tpl.Calls, 4)
			}
			if !found {
				continue
			}
		}
		// An invariant about an index and slices is of interest only for the slices of the loop:
		counts := false
		for _, p := range tpl.Vars {
			counts = counts || p.Type.Kind == "name" && p.Type.Pkg == "" && p.Type.Name == "idx"
		}
		var rec func(i int, bind map[string]func(get func(ssa.Value) *Val) *Val, label string, used map[ssa.Value]bool)
		rec = func(i int, bind map[string]func(get func(ssa.Value) *Val) *Val, label string, used map[ssa.Value]bool) {
			if i == len(tpl.Vars) {
				bs := map[string]func(get func(ssa.Value) *Val) *Val{}
				for k, x := range bind {
					bs[k] = x
				}
				v.addCand(l, fmt.Sprintf("T%d[%s]", ti, label), true, func(get func(ssa.Value) *Val, st *State) *Term {
					env := v.rootEnv(st)
					env.loop = entrySt
					for k, x := range bs {
						env.vars[k] = x(get)
					}
					v.bindVisited(env, f, l, st)
					return v.evalBool(env, tpl.E)
				})
				return
			}
			p := tpl.Vars[i]
			var want types.Type
			idx := false
			if p.Type.Kind == "name" && p.Type.Pkg == "" && p.Type.Name == "idx" {
				want, idx = types.Typ[types.Int], true
			} else {
				var err error
				want, err = v.tryType(p.Type)
				if err != nil {
					return
				}
			}
			for _, s := range scope {
				s := s
				if used[s] {
					continue
				}
				if !types.Identical(s.Type().Underlying(), want.Underlying()) {
					continue
				}
				_, isNamedWant := types.Unalias(want).(*types.Named)
				if isNamedWant && !types.Identical(s.Type(), want) {
					continue
				}
				if x, ok := f.vals[s]; ok && x.Term == nil && x.Fields == nil {
					continue
				}
				if _, isSlice := want.Underlying().(*types.Slice); isSlice && counts && v.cur.Heavy && !usedIn(s, l) {
					continue
				}
				offs := []int64{0}
				if idx {
					if phi, isPhi := s.(*ssa.Phi); !isPhi || phi.Block() != l.header {
						continue
					}
					offs = []int64{0, 1}
				}
				for _, o := range offs {
					o := o
					bind[p.Name] = func(get func(ssa.Value) *Val) *Val {
						x := get(s)
						if o != 0 {
							return ival(tAdd(x.Term, tInt(o)))
						}
						return x
					}
					used[s] = true
					lb := fmt.Sprintf("%s=%s", p.Name, s.Name())
					if o != 0 {
						lb += "+1"
					}
					if label != "" {
						lb = label + "," + lb
					}
					rec(i+1, bind, lb, used)
					delete(used, s)
					delete(bind, p.Name)
				}
			}
		}
		rec(0, map[string]func(get func(ssa.Value) *Val) *Val{}, "", map[ssa.Value]bool{})
	}
}

// usedIn tells if the value is changed or used by the loop.
func usedIn(x ssa.Value, l *loopInfo) bool {
	if p, ok := x.(*ssa.Phi); ok && l.blocks[p.Block()] {
		return true
	}
	refs := x.Referrers()
	if refs == nil {
		return true
	}
	for _, r := range *refs {
		if l.blocks[r.Block()] {
			return true
		}
	}
	return false
}

func (v *Verifier) tryType(t *TypeExpr) (r types.Type, err error) {
	defer func() {
		if e := recover(); e != nil {
			if s, ok := e.(specError); ok {
				err = fmt.Errorf("%s", s.msg)
				return
			}
			panic(e)
		}
	}()
	r, _ = v.resolveType(t)
	if r == nil {
		err = fmt.Errorf("not a Go type")
	}
	return
}

// scopeValues returns the values that can be used in the invariants of the loop: its own variables
// and the values that dominate it.
func (v *Verifier) scopeValues(f *frame, l *loopInfo, phis []*ssa.Phi) []ssa.Value {
	var out []ssa.Value
	for _, p := range phis {
		out = append(out, p)
	}
	var rest []ssa.Value
	for x := range f.vals {
		switch y := x.(type) {
		case *ssa.Parameter, *ssa.FreeVar:
			rest = append(rest, x)
		case ssa.Instruction:
			if y.Block() == l.header {
				continue
			}
			if y.Block() != nil && y.Block().Dominates(l.header) && !l.blocks[y.Block()] {
				rest = append(rest, x)
			} else if y.Block() != nil && y.Block().Dominates(l.header) {
				rest = append(rest, x)
			}
		}
	}
	sort.Slice(rest, func(i, j int) bool {
		return rest[i].Name() < rest[j].Name()
	})
	return append(out, rest...)
}

func (v *Verifier) bindVisited(env *Env, f *frame, l *loopInfo, st *State) {
	// The iterator used by the loop header:
	for b := range l.blocks {
		for _, ins := range b.Instrs {
			nx, ok := ins.(*ssa.Next)
			if !ok {
				continue
			}
			it, ok := f.vals[nx.Iter]
			if !ok || it.Iter == nil {
				continue
			}
			// the innermost loop containing the Next instruction must be this one
			inner := true
			for h, o := range f.loops {
				if h != l.header && o.blocks[b] && l.blocks[h] {
					inner = false
				}
			}
			if !inner {
				continue
			}
			set, ok := st.heaps[it.Iter.key]
			if !ok {
				continue
			}
			if nx.IsString {
				env.spos = set
				return
			}
			env.visSet = set
			env.visited = func(k *Term) *Term { return tSelect(set, k) }
			return
		}
	}
}

// ---- blocks ----

func (v *Verifier) nonNil(f *frame, g *Term, p *Val, what string, pos token.Pos) {
	if p.Addr != nil || p.Term == nil {
		return
	}
	c := tNot(tEq(p.Term, tInt(0)))
	if c.Op == "true" {
		return
	}
	if v.cur != nil && v.cur.NoPanic {
		v.oblige("nil", what, tImp(g, c), pos)
	}
	v.c.fact(tImp(g, c))
}

func (v *Verifier) oblige(kind, detail string, t *Term, pos token.Pos) {
	if t.Op == "true" {
		return
	}
	v.c.check(&Check{Name: v.curName, Kind: kind, Detail: detail, Pos: v.posString(pos)}, t, nil)
}

func (v *Verifier) posString(p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	q := v.fset.Position(p)
	return fmt.Sprintf("%s:%d", q.Filename, q.Line)
}

func (v *Verifier) runBlock(f *frame, b *ssa.BasicBlock, g *Term, st *State) (*Term, *State, *retInfo) {
	for _, ins := range b.Instrs {
		switch x := ins.(type) {
		case *ssa.Phi, *ssa.DebugRef:
			continue
		case *ssa.If, *ssa.Jump:
			return g, st, nil
		case *ssa.Return:
			r := &retInfo{guard: g, st: st}
			for _, y := range x.Results {
				r.vals = append(r.vals, v.val(f, y))
			}
			return g, st, r
		case *ssa.Panic:
			if v.cur != nil && v.cur.NoPanic {
				v.oblige("panic", "unreachable", tNot(g), x.Pos())
			}
			return nil, st, nil
		case *ssa.RunDefers:
			for i := len(f.defers) - 1; i >= 0; i-- {
				d := f.defers[i]
				if !d.Block().Dominates(b) {
					unsup("conditional defer")
				}
				_, g2 := v.call(f, d.Call, nil, g, st, d.Pos())
				if g2 == nil {
					return nil, st, nil
				}
				g = g2
			}
		case *ssa.Defer:
			f.defers = append(f.defers, x)
		case *ssa.Store:
			p := v.val(f, x.Addr)
			v.nonNil(f, g, p, "store", x.Pos())
			t := x.Addr.Type().Underlying().(*types.Pointer).Elem()
			v.assign(st, p, t, v.val(f, x.Val))
		case *ssa.MapUpdate:
			m := v.val(f, x.Map)
			v.nonNil(f, g, m, "map write", x.Pos())
			v.mapStore(st, m, v.term(v.val(f, x.Key)), v.val(f, x.Value))
		case *ssa.Call:
			r, g2 := v.call(f, x.Call, x, g, st, x.Pos())
			if g2 == nil {
				return nil, st, nil
			}
			g = g2
			if r != nil {
				f.vals[x] = v.nameVal(x.Name(), r)
			}
		case ssa.Value:
			r := v.instr(f, x, &g, st)
			f.vals[x] = v.nameVal(x.Name(), r)
			switch ins.(type) {
			case *ssa.UnOp, *ssa.Lookup, *ssa.Field, *ssa.TypeAssert, *ssa.Extract:
				if r.Addr == nil && r.Iter == nil {
					v.c.fact(tImp(g, v.wf(f.vals[x], st.alloc)))
				}
			}
		default:
			unsup("instruction %T", ins)
		}
	}
	return g, st, nil
}

func (v *Verifier) mapStore(st *State, m *Val, k *Term, x *Val) {
	dk, vk, ks, vs, mt := v.mapKeys(m)
	ds, vss := arraySort("Int", arraySort(ks, "Bool")), arraySort("Int", arraySort(ks, vs))
	v.registry[dk], v.registry[vk] = ds, vss
	d, h := v.heap(st, dk, ds), v.heap(st, vk, vss)
	if v.isComposite(mt.Elem()) {
		unsup("map of structs")
	}
	st.heaps[dk] = v.c.name("MD", tStore(d, m.Term, tStore(tSelect(d, m.Term), k, tTrue)))
	st.heaps[vk] = v.c.name("MV", tStore(h, m.Term, tStore(tSelect(h, m.Term), k, v.term(x))))
	v.written[dk], v.written[vk] = true, true
}

func (v *Verifier) instr(f *frame, ins ssa.Value, gp **Term, st *State) *Val {
	g := *gp
	switch x := ins.(type) {
	case *ssa.Alloc:
		t := x.Type().Underlying().(*types.Pointer).Elem()
		r := v.newObj(st, "new")
		p := &Val{T: x.Type(), Term: r}
		if at, ok := t.Underlying().(*types.Array); ok {
			if v.isComposite(at.Elem()) {
				return p // contents unknown
			}
			key := "E|" + typeKey(at.Elem())
			v.noteHeap(key, at.Elem())
			srt := arraySort("Int", arraySort("Int", v.goSort(at.Elem())))
			v.registry[key] = srt
			z := mk(arraySort("Int", v.goSort(at.Elem())), "(as const "+arraySort("Int", v.goSort(at.Elem()))+")", v.zeroTerm(at.Elem()))
			st.heaps[key] = v.c.name("H", tStore(v.heap(st, key, srt), r, z))
			v.written[key] = true
			return p
		}
		v.assign(st, p, t, v.zeroVal(t))
		v.zeroGhosts(st, t, r)
		return p
	case *ssa.FieldAddr:
		p := v.val(f, x.X)
		v.nonNil(f, g, p, "field "+fieldName(x), x.Pos())
		t := x.X.Type().Underlying().(*types.Pointer).Elem()
		if v.opaqueStruct(t) {
			unsup("field of external struct %s", t)
		}
		if p.Addr != nil {
			unsup("field of addressed struct")
		}
		return v.fieldAddr(t, p.Term, x.Field)
	case *ssa.Field:
		s := v.val(f, x.X)
		if s.Fields == nil {
			unsup("field of external struct")
		}
		return s.Fields[x.Field]
	case *ssa.IndexAddr:
		base := v.val(f, x.X)
		i := v.toInt(v.val(f, x.Index))
		switch u := x.X.Type().Underlying().(type) {
		case *types.Slice:
			v.bounds(g, i, mk("Int", "slen", base.Term), x.Pos())
			return v.elemAddr(u.Elem(), mk("Int", "sarr", base.Term), tIdx(mk("Int", "soff", base.Term), i))
		case *types.Pointer:
			at := u.Elem().Underlying().(*types.Array)
			v.bounds(g, i, tInt(at.Len()), x.Pos())
			return v.elemAddr(at.Elem(), base.Term, i)
		}
	case *ssa.Index:
		base := v.val(f, x.X)
		i := v.toInt(v.val(f, x.Index))
		if b, ok := x.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			return v.strIndex(g, base.Term, i, x.Type(), x.Pos())
		}
		return &Val{T: x.Type(), Term: tSelect(base.Term, i)}
	case *ssa.Lookup:
		base := v.val(f, x.X)
		if _, ok := x.X.Type().Underlying().(*types.Map); !ok {
			i := v.toInt(v.val(f, x.Index))
			return v.strIndex(g, base.Term, i, x.Type(), x.Pos())
		}
		k := v.term(v.val(f, x.Index))
		mt := x.X.Type().Underlying().(*types.Map)
		has := v.c.name("has", tAnd(tNot(tEq(base.Term, tInt(0))), v.mapHas(st, base, k)))
		if v.isComposite(mt.Elem()) {
			unsup("map of structs")
		}
		val := &Val{T: mt.Elem(), Term: tIte(has, v.mapVal(st, base, k), v.zeroTerm(mt.Elem()))}
		if x.CommaOk {
			return &Val{T: x.Type(), Fields: []*Val{val, bval(has)}}
		}
		return val
	case *ssa.UnOp:
		y := v.val(f, x.X)
		switch x.Op {
		case token.MUL:
			v.nonNil(f, g, y, "dereference", x.Pos())
			return v.deref(st, y, x.Type())
		case token.NOT:
			return bval(tNot(y.Term))
		case token.SUB:
			if y.Term.Sort == "Int" {
				return &Val{T: x.Type(), Term: mk("Int", "-", y.Term)}
			}
			if w := bvWidth(y.Term.Sort); w > 0 {
				return &Val{T: x.Type(), Term: mk(y.Term.Sort, "bvneg", y.Term)}
			}
			return v.opaqueOp("neg", x.Type(), y.Term)
		case token.XOR:
			if w := bvWidth(y.Term.Sort); w > 0 {
				return &Val{T: x.Type(), Term: mk(y.Term.Sort, "bvnot", y.Term)}
			}
			return &Val{T: x.Type(), Term: tSub(mk("Int", "-", y.Term), tInt(1))}
		}
		unsup("unary operator %s", x.Op)
	case *ssa.BinOp:
		return v.binop(g, x, v.val(f, x.X), v.val(f, x.Y))
	case *ssa.ChangeType:
		y := *v.val(f, x.X)
		y.T = x.Type()
		return &y
	case *ssa.ChangeInterface:
		y := *v.val(f, x.X)
		y.T = x.Type()
		return &y
	case *ssa.MakeInterface:
		return v.makeIface(v.val(f, x.X), x.Type())
	case *ssa.TypeAssert:
		return v.typeAssert(g, x, v.val(f, x.X))
	case *ssa.Extract:
		t := v.val(f, x.Tuple)
		return t.Fields[x.Index]
	case *ssa.Convert:
		return v.convert(x, v.val(f, x.X))
	case *ssa.MakeSlice:
		n := v.toInt(v.val(f, x.Len))
		c := v.toInt(v.val(f, x.Cap))
		if v.cur != nil && v.cur.NoPanic {
			v.oblige("bounds", "makeslice", tImp(g, tAnd(tLe(tInt(0), n), tLe(n, c))), x.Pos())
		}
		v.c.fact(tImp(g, tAnd(tLe(tInt(0), n), tLe(n, c))))
		return v.makeSlice(st, x.Type(), n, c)
	case *ssa.MakeMap:
		r := v.newObj(st, "map")
		m := &Val{T: x.Type(), Term: r}
		dk, vk, ks, vs, _ := v.mapKeys(m)
		ds := arraySort("Int", arraySort(ks, "Bool"))
		v.registry[dk] = ds
		v.registry[vk] = arraySort("Int", arraySort(ks, vs))
		e := mk(arraySort(ks, "Bool"), "(as const "+arraySort(ks, "Bool")+")", tFalse)
		st.heaps[dk] = v.c.name("MD", tStore(v.heap(st, dk, ds), r, e))
		v.written[dk] = true
		return m
	case *ssa.MakeClosure:
		r := &Val{T: x.Type(), Fn: x.Fn.(*ssa.Function)}
		for _, b := range x.Bindings {
			r.Bind = append(r.Bind, v.val(f, b))
		}
		return r
	case *ssa.Slice:
		return v.slice(f, g, x, st)
	case *ssa.Range:
		m := v.val(f, x.X)
		it := &iterState{m: m, key: "VIS|" + f.path + "|" + x.Name()}
		if b, ok := x.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			it.isStr = true
			v.registry[it.key] = "Int"
			st.heaps[it.key] = tInt(0)
			return &Val{Iter: it}
		}
		mt := x.X.Type().Underlying().(*types.Map)
		ss := arraySort(v.goSort(mt.Key()), "Bool")
		v.registry[it.key] = ss
		st.heaps[it.key] = mk(ss, "(as const "+ss+")", tFalse)
		return &Val{Iter: it}
	case *ssa.Next:
		return v.nextIter(f, g, x, st)
	case *ssa.SliceToArrayPointer:
		unsup("slice to array conversion")
	}
	unsup("instruction %T", ins)
	return nil
}

func (v *Verifier) zeroGhosts(st *State, t types.Type, ref *Term) {
	for _, g := range v.spec.Ghosts {
		gt, err := v.tryType(g.Type)
		if err != nil || !types.Identical(gt, t) {
			continue
		}
		a := v.ghostAddr(g, ref)
		_, es := arrayParts(a.Sort)
		var z *Term
		switch es {
		case "Int":
			z = tInt(0)
		case "Bool":
			z = tFalse
		case "Str":
			z = v.c.strLit("")
		case "LI":
			z = konst("li.nil", "LI")
		case "LS":
			z = konst("ls.nil", "LS")
		default:
			continue
		}
		v.storeAddr(st, a, z)
	}
}

func fieldName(x *ssa.FieldAddr) string {
	t := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
	return t.Field(x.Field).Name()
}

func (v *Verifier) bounds(g, i, n *Term, pos token.Pos) {
	c := tAnd(tLe(tInt(0), i), tLt(i, n))
	if v.cur != nil && v.cur.NoPanic {
		v.oblige("bounds", "index in range", tImp(g, c), pos)
	}
	v.c.fact(tImp(g, c))
}

func (v *Verifier) strIndex(g, s, i *Term, t types.Type, pos token.Pos) *Val {
	v.bounds(g, i, mk("Int", "strlen", s), pos)
	v.c.declare("strbyte", v.goSort(t), "Str", "Int")
	return &Val{T: t, Term: mk(v.goSort(t), "strbyte", s, i)}
}

func (v *Verifier) toInt(x *Val) *Term {
	t := v.term(x)
	if w := bvWidth(t.Sort); w > 0 {
		return mk("Int", "bv2nat", t)
	}
	return t
}

func (v *Verifier) makeSlice(st *State, t types.Type, n, c *Term) *Val {
	et := t.Underlying().(*types.Slice).Elem()
	r := v.newObj(st, "arr")
	if !v.isComposite(et) {
		key := "E|" + typeKey(et)
		v.noteHeap(key, et)
		es := v.goSort(et)
		srt := arraySort("Int", arraySort("Int", es))
		v.registry[key] = srt
		z := mk(arraySort("Int", es), "(as const "+arraySort("Int", es)+")", v.zeroTerm(et))
		st.heaps[key] = v.c.name("H", tStore(v.heap(st, key, srt), r, z))
		v.written[key] = true
	}
	return &Val{T: t, Term: mk("Slice", "mkslice", r, tInt(0), n, c)}
}

func (v *Verifier) opaqueOp(name string, t types.Type, args ...*Term) *Val {
	s := v.goSort(t)
	n := "op!" + name
	var ss []string
	for _, a := range args {
		ss = append(ss, a.Sort)
		n += "!" + sanitize(a.Sort)
	}
	n += "!" + sanitize(s)
	v.c.declare(n, s, ss...)
	return &Val{T: t, Term: mk(s, n, args...)}
}

func (v *Verifier) binop(g *Term, x *ssa.BinOp, a, b *Val) *Val {
	switch x.Op {
	case token.EQL, token.NEQ:
		a, b = v.unify(a, b)
		var t *Term
		if a.Addr != nil || b.Addr != nil {
			// address of a location compared with nil
			t = tFalse
		} else {
			t = v.equal(a, b)
		}
		if x.Op == token.NEQ {
			t = tNot(t)
		}
		return bval(t)
	}
	p, q := v.term(a), v.term(b)
	switch p.Sort {
	case "Int":
		switch x.Op {
		case token.ADD:
			return &Val{T: x.Type(), Term: tAdd(p, q)}
		case token.SUB:
			return &Val{T: x.Type(), Term: tSub(p, q)}
		case token.MUL:
			return &Val{T: x.Type(), Term: mk("Int", "*", p, q)}
		case token.LSS:
			return bval(tLt(p, q))
		case token.LEQ:
			return bval(tLe(p, q))
		case token.GTR:
			return bval(tLt(q, p))
		case token.GEQ:
			return bval(tLe(q, p))
		case token.QUO:
			v.c.fact(tImp(g, tNot(tEq(q, tInt(0)))))
			// truncated division
			return &Val{T: x.Type(), Term: tIte(tLe(tInt(0), p), mk("Int", "div", p, q), mk("Int", "-", mk("Int", "div", mk("Int", "-", p), q)))}
		case token.REM:
			v.c.fact(tImp(g, tNot(tEq(q, tInt(0)))))
			return &Val{T: x.Type(), Term: tIte(tLe(tInt(0), p), mk("Int", "mod", p, q), mk("Int", "-", mk("Int", "mod", mk("Int", "-", p), q)))}
		case token.SHL:
			qi := v.toInt(b)
			if n, ok := isInt(p); ok && n == 1 {
				return &Val{T: x.Type(), Term: v.pow2(qi)}
			}
			return &Val{T: x.Type(), Term: mk("Int", "*", p, v.pow2(qi))}
		}
		return v.opaqueOp("bin"+sanitize(x.Op.String()), x.Type(), p, q)
	case "Str":
		switch x.Op {
		case token.ADD:
			return &Val{T: x.Type(), Term: v.c.tCat(p, q)}
		case token.LSS:
			return bval(mk("Bool", "strlt", p, q))
		case token.GTR:
			return bval(mk("Bool", "strlt", q, p))
		case token.LEQ:
			return bval(tNot(mk("Bool", "strlt", q, p)))
		case token.GEQ:
			return bval(tNot(mk("Bool", "strlt", p, q)))
		}
	case "Flt":
		return v.opaqueOp("flt"+fltOps[x.Op], x.Type(), p, q)
	}
	if w := bvWidth(p.Sort); w > 0 {
		bvq := q
		if x.Op == token.SHL || x.Op == token.SHR {
			if bvWidth(q.Sort) != w {
				if n, ok := isInt(q); ok {
					bvq = bvLit(uint64(n), w)
				} else if q.Sort == "Int" {
					bvq = mk(p.Sort, fmt.Sprintf("(_ int2bv %d)", w), q)
				} else if bvWidth(q.Sort) < w {
					bvq = mk(p.Sort, fmt.Sprintf("(_ zero_extend %d)", w-bvWidth(q.Sort)), q)
				} else {
					unsup("wide shift")
				}
			}
		}
		ops := map[token.Token]string{token.ADD: "bvadd", token.SUB: "bvsub", token.MUL: "bvmul", token.AND: "bvand", token.OR: "bvor", token.XOR: "bvxor", token.SHL: "bvshl", token.SHR: "bvlshr", token.QUO: "bvudiv", token.REM: "bvurem"}
		cmp := map[token.Token]string{token.LSS: "bvult", token.LEQ: "bvule", token.GTR: "bvugt", token.GEQ: "bvuge"}
		if x.Op == token.AND_NOT {
			return &Val{T: x.Type(), Term: mk(p.Sort, "bvand", p, mk(p.Sort, "bvnot", q))}
		}
		if o, ok := ops[x.Op]; ok {
			return &Val{T: x.Type(), Term: mk(p.Sort, o, p, bvq)}
		}
		if o, ok := cmp[x.Op]; ok {
			return bval(mk("Bool", o, p, q))
		}
	}
	unsup("operator %s on %s", x.Op, p.Sort)
	return nil
}

var fltOps = map[token.Token]string{token.ADD: "add", token.SUB: "sub", token.MUL: "mul", token.QUO: "quo", token.LSS: "lss", token.LEQ: "leq", token.GTR: "gtr", token.GEQ: "geq"}

func (v *Verifier) typeID(t types.Type) *Term {
	k := typeKey(t)
	n, ok := v.typeIDs[k]
	if !ok {
		n = int64(len(v.typeIDs)) + 1
		v.typeIDs[k] = n
		v.typeByKey[k] = t
	}
	return tInt(n)
}

// ifaceCtor selects the constructor of the interface datatype for a dynamic type.
func (v *Verifier) ifaceCtor(t types.Type) (ctor, tag, get, sort string) {
	if v.isComposite(t) {
		return "iother", "iothert", "iotherv", "Int"
	}
	switch s := v.goSort(t); s {
	case "Int":
		switch t.Underlying().(type) {
		case *types.Basic:
			return "iint", "iintt", "iintv", "Int"
		}
		return "iref", "ireft", "irefv", "Int"
	case "Str":
		return "istr", "istrt", "istrv", "Str"
	case "Bool":
		return "ibool", "iboolt", "iboolv", "Bool"
	case "Slice":
		return "islice", "islicet", "islicev", "Slice"
	case "Flt":
		return "iflt", "ifltt", "ifltv", "Flt"
	}
	return "iother", "iothert", "iotherv", "Int"
}

func (v *Verifier) makeIface(x *Val, t types.Type) *Val {
	if x.T == nil {
		return &Val{T: t, Term: konst("inil", "Iface")}
	}
	if _, ok := x.T.Underlying().(*types.Interface); ok {
		y := *x
		y.T = t
		return &y
	}
	ctor, _, _, _ := v.ifaceCtor(x.T)
	var p *Term
	if ctor == "iother" {
		// an opaque value: the box is an injective function of the value when it is atomic
		if x.Term != nil {
			s := x.Term.Sort
			n := "box!" + sanitize(s)
			if !v.c.declSet[n] {
				v.c.declare(n, "Int", s)
				v.c.declare("un"+n, s, "Int")
				v.axioms = append(v.axioms, fmt.Sprintf("(forall ((x %s)) (! (= (un%s (%s x)) x) :pattern ((%s x))))", s, n, n, n))
			}
			p = mk("Int", n, x.Term)
		} else {
			p = v.c.freshConst("box", "Int")
		}
	} else if x.Addr != nil {
		p = v.c.freshConst("addrbox", "Int")
	} else {
		p = v.term(x)
	}
	return &Val{T: t, Term: mk("Iface", ctor, v.typeID(x.T), p)}
}

func (v *Verifier) ifaceIs(i *Term, t types.Type) *Term {
	if it, ok := t.Underlying().(*types.Interface); ok {
		if it.NumMethods() == 0 {
			return tNot(tEq(i, konst("inil", "Iface")))
		}
		n := "implements!" + sanitize(typeKey(t))
		v.c.declare(n, "Bool", "Iface")
		return tAnd(tNot(tEq(i, konst("inil", "Iface"))), mk("Bool", n, i))
	}
	ctor, tag, _, _ := v.ifaceCtor(t)
	if i.Op == ctor {
		return tEq(i.Args[0], v.typeID(t))
	}
	return tAnd(mk("Bool", "(_ is "+ctor+")", i), tEq(mk("Int", tag, i), v.typeID(t)))
}

func (v *Verifier) ifaceGet(i *Term, t types.Type) *Val {
	if _, ok := t.Underlying().(*types.Interface); ok {
		return &Val{T: t, Term: i}
	}
	ctor, _, get, sort := v.ifaceCtor(t)
	if i.Op == ctor {
		if ctor != "iother" {
			return &Val{T: t, Term: i.Args[1]}
		}
	}
	if ctor == "iother" {
		if v.isComposite(t) {
			return v.freshVal("unboxed", t)
		}
		s := v.goSort(t)
		n := "box!" + sanitize(s)
		if !v.c.declSet[n] {
			v.c.declare(n, "Int", s)
			v.c.declare("un"+n, s, "Int")
			v.axioms = append(v.axioms, fmt.Sprintf("(forall ((x %s)) (! (= (un%s (%s x)) x) :pattern ((%s x))))", s, n, n, n))
		}
		return &Val{T: t, Term: mk(s, "un"+n, mk("Int", get, i))}
	}
	return &Val{T: t, Term: mk(sort, get, i)}
}

func (v *Verifier) typeAssert(g *Term, x *ssa.TypeAssert, i *Val) *Val {
	ok := v.c.name("isT", v.ifaceIs(i.Term, x.AssertedType))
	val := v.ifaceGet(i.Term, x.AssertedType)
	if x.CommaOk {
		z := v.zeroVal(x.AssertedType)
		return &Val{T: x.Type(), Fields: []*Val{v.iteVal(ok, val, z), bval(ok)}}
	}
	if v.cur != nil && v.cur.NoPanic {
		v.oblige("assert", "type assertion", tImp(g, ok), x.Pos())
	}
	v.c.fact(tImp(g, ok))
	return val
}

func (v *Verifier) convert(x *ssa.Convert, a *Val) *Val {
	from, to := v.goSort(a.T), v.goSort(x.Type())
	if from == to {
		if from == "Int" {
			// conversions between signed integers are the identity (mathematical integers)
			return &Val{T: x.Type(), Term: a.Term}
		}
		if from == "Str" || bvWidth(from) > 0 || from == "Flt" {
			if from != "Flt" {
				return &Val{T: x.Type(), Term: a.Term}
			}
		}
	}
	if w := bvWidth(to); w > 0 {
		if n, ok := isInt(a.Term); ok && n >= 0 {
			return &Val{T: x.Type(), Term: bvLit(uint64(n), w)}
		}
		if from == "Int" {
			return &Val{T: x.Type(), Term: mk(to, fmt.Sprintf("(_ int2bv %d)", w), a.Term)}
		}
		if fw := bvWidth(from); fw > 0 {
			if fw < w {
				return &Val{T: x.Type(), Term: mk(to, fmt.Sprintf("(_ zero_extend %d)", w-fw), a.Term)}
			}
			return &Val{T: x.Type(), Term: mk(to, fmt.Sprintf("(_ extract %d 0)", w-1), a.Term)}
		}
	}
	if to == "Int" && bvWidth(from) > 0 {
		return &Val{T: x.Type(), Term: mk("Int", "bv2nat", a.Term)}
	}
	return v.opaqueOp("conv!"+sanitize(typeKey(x.Type())), x.Type(), v.term(a))
}

func (v *Verifier) slice(f *frame, g *Term, x *ssa.Slice, st *State) *Val {
	base := v.val(f, x.X)
	var lo, hi *Term = tInt(0), nil
	if x.Low != nil {
		lo = v.toInt(v.val(f, x.Low))
	}
	if x.High != nil {
		hi = v.toInt(v.val(f, x.High))
	}
	check := func(c *Term) {
		if v.cur != nil && v.cur.NoPanic {
			v.oblige("bounds", "slice in range", tImp(g, c), x.Pos())
		}
		v.c.fact(tImp(g, c))
	}
	switch u := x.X.Type().Underlying().(type) {
	case *types.Slice:
		if hi == nil {
			hi = mk("Int", "slen", base.Term)
		}
		mx := mk("Int", "scap", base.Term)
		if x.Max != nil {
			mx = v.toInt(v.val(f, x.Max))
		}
		check(tAnd(tLe(tInt(0), lo), tLe(lo, hi), tLe(hi, mk("Int", "scap", base.Term))))
		off := tAdd(mk("Int", "soff", base.Term), lo)
		if n, ok := isInt(lo); ok && n > 0 {
			// the elements of the part are elements of the whole:
			off = v.c.name("off", off)
			v.c.fact(&Term{Op: fmt.Sprintf("(forall ((j Int)) (! (= (idx %s j) (idx %s (+ j %d))) :pattern ((idx %s j))))", off, mk("Int", "soff", base.Term), n, off), Sort: "Bool"})
		}
		return &Val{T: x.Type(), Term: mk("Slice", "mkslice", mk("Int", "sarr", base.Term), off, tSub(hi, lo), tSub(mx, lo))}
	case *types.Pointer:
		at := u.Elem().Underlying().(*types.Array)
		n := tInt(at.Len())
		if hi == nil {
			hi = n
		}
		check(tAnd(tLe(tInt(0), lo), tLe(lo, hi), tLe(hi, n)))
		return &Val{T: x.Type(), Term: mk("Slice", "mkslice", base.Term, lo, tSub(hi, lo), tSub(n, lo))}
	case *types.Basic:
		if hi == nil {
			hi = mk("Int", "strlen", base.Term)
		}
		check(tAnd(tLe(tInt(0), lo), tLe(lo, hi), tLe(hi, mk("Int", "strlen", base.Term))))
		v.substrDecl()
		return &Val{T: x.Type(), Term: mk("Str", "substr", base.Term, lo, hi)}
	}
	unsup("slice of %s", x.X.Type())
	return nil
}

func (v *Verifier) substrDecl() {
	if v.c.declSet["substr"] {
		return
	}
	v.c.declare("substr", "Str", "Str", "Int", "Int")
	e := v.c.strLit("")
	v.axioms = append(v.axioms,
		"(forall ((s Str) (i Int) (j Int)) (! (=> (and (<= 0 i) (<= i j) (<= j (strlen s))) (= (strlen (substr s i j)) (- j i))) :pattern ((substr s i j))))",
		"(forall ((s Str) (i Int) (j Int) (k Int)) (! (=> (and (<= 0 i) (<= i j) (<= j k) (<= k (strlen s))) (= (strcat (substr s i j) (substr s j k)) (substr s i k))) :pattern ((substr s i j) (substr s j k))))",
		"(forall ((s Str) (j Int)) (! (=> (= j (strlen s)) (= (substr s 0 j) s)) :pattern ((substr s 0 j))))",
		fmt.Sprintf("(forall ((s Str) (i Int)) (! (= (substr s i i) %s) :pattern ((substr s i i))))", e.Op),
		"(forall ((s Str) (t Str) (i Int)) (! (=> (= i (strlen s)) (= (substr (strcat s t) 0 i) s)) :pattern ((substr (strcat s t) 0 i))))")
}

func (v *Verifier) runeDecl() {
	if v.c.declSet["utf8valid"] {
		return
	}
	v.axioms = append(v.axioms, "(forall ((r "+v.goSort(types.Typ[types.Rune])+")) (! (<= 1 (strlen (runestr r))) :pattern ((runestr r))))")
	v.c.declare("utf8valid", "Bool", "Str")
	v.c.declare("runestr", "Str", v.goSort(types.Typ[types.Rune]))
}

// nextIter advances an iterator over a map or string.
func (v *Verifier) nextIter(f *frame, g *Term, x *ssa.Next, st *State) *Val {
	it := v.val(f, x.Iter).Iter
	tp := x.Type().(*types.Tuple)
	ok := v.c.freshConst("next.ok", "Bool")
	if it.isStr {
		// The state of the iterator is the position of the next rune.
		s := v.term(it.m)
		pos := st.heaps[it.key]
		r := v.freshVal("next.v", types.Typ[types.Rune])
		n := mk("Int", "strlen", s)
		v.substrDecl()
		v.runeDecl()
		p2 := v.c.freshConst("next.pos", "Int")
		v.c.fact(tImp(g, tAnd(tLe(tInt(0), pos), tLe(pos, n))))
		v.c.fact(tImp(g, tEq(ok, tLt(pos, n))))
		v.c.fact(tImp(tAnd(g, ok), tAnd(tLt(pos, p2), tLe(p2, n))))
		v.c.fact(tImp(tAnd(g, ok), tAnd(
			tEq(mk("Str", "substr", s, tInt(0), p2), v.c.tCat(mk("Str", "substr", s, tInt(0), pos), mk("Str", "substr", s, pos, p2))),
			tImp(mk("Bool", "utf8valid", s), tEq(mk("Str", "substr", s, pos, p2), mk("Str", "runestr", r.Term))))))
		st.heaps[it.key] = v.c.name("VIS", tIte(ok, p2, pos))
		v.written[it.key] = true
		return &Val{T: tp, Fields: []*Val{bval(ok), &Val{T: types.Typ[types.Int], Term: pos}, r}}
	}
	mt := it.m.T.Underlying().(*types.Map)
	ks := v.goSort(mt.Key())
	set := st.heaps[it.key]
	k := v.c.freshConst("next.k", ks)
	dom := v.c.name("dom", v.mapDom(st, it.m))
	notNil := tNot(tEq(it.m.Term, tInt(0)))
	v.c.fact(tImp(tAnd(g, ok), tAnd(notNil, tSelect(dom, k), tNot(tSelect(set, k)))))
	v.c.fact(tImp(tAnd(g, tNot(ok)), tOr(tEq(it.m.Term, tInt(0)),
		&Term{Op: fmt.Sprintf("(forall ((k %s)) (! (=> (select %s k) (select %s k)) :pattern ((select %s k)) :pattern ((select %s k))))", ks, dom, set, dom, set), Sort: "Bool"})))
	// If the map isn't changed by the loop then the visited keys are keys of the map:
	dk, _, _, _, _ := v.mapKeys(it.m)
	inLoop := false
	for _, l := range f.loops {
		if l.blocks[x.Block()] && v.loopWrites[l.key][dk] {
			inLoop = true
		}
	}
	if !inLoop {
		v.c.fact(tImp(g, &Term{Op: fmt.Sprintf("(forall ((k %s)) (! (=> (select %s k) (select %s k)) :pattern ((select %s k))))", ks, set, dom, set), Sort: "Bool"}))
		v.c.fact(tImp(tAnd(g, tNot(ok), notNil), tEq(set, dom)))
		v.card(dom)
		v.c.fact(tImp(tAnd(g, ok), tLt(v.card(set), v.card(dom))))
	}
	st.heaps[it.key] = v.c.name("VIS", tIte(ok, tStore(set, k, tTrue), set))
	v.written[it.key] = true
	kv := &Val{T: mt.Key(), Term: k}
	vv := v.zeroPlaceholder(mt.Elem())
	if !v.isComposite(mt.Elem()) {
		vv = &Val{T: mt.Elem(), Term: v.mapVal(st, it.m, k)}
	}
	v.c.fact(tImp(g, tAnd(v.wf(kv, st.alloc), v.wf(vv, st.alloc))))
	return &Val{T: tp, Fields: []*Val{bval(ok), kv, vv}}
}

func (v *Verifier) zeroPlaceholder(t types.Type) *Val { return v.freshVal("next.v", t) }
