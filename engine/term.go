package main

// SMT terms. Sorts are plain strings. Terms are small trees that are printed on demand; values of
// the verified program are named with define-fun, so trees stay small.

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
)

type Term struct {
	Op   string
	Args []*Term
	Sort string
	Lit  *string // for string literals
	str  string
	goal string // version of a quantifier to use where it is to be proved
}

// goalString prints a term that is to be proved.
func goalString(t *Term) string {
	if t.goal != "" {
		return t.goal
	}
	from := len(t.Args)
	switch t.Op {
	case "and", "or":
		from = 0
	case "=>":
		from = len(t.Args) - 1
	}
	if from >= len(t.Args) {
		return t.String()
	}
	var sb strings.Builder
	sb.WriteByte('(')
	sb.WriteString(t.Op)
	for i, a := range t.Args {
		sb.WriteByte(' ')
		if i >= from {
			sb.WriteString(goalString(a))
		} else {
			sb.WriteString(a.String())
		}
	}
	sb.WriteByte(')')
	return sb.String()
}

func (t *Term) String() string {
	if t.str == "" {
		if len(t.Args) == 0 {
			t.str = t.Op
		} else {
			var sb strings.Builder
			sb.WriteByte('(')
			sb.WriteString(t.Op)
			for _, a := range t.Args {
				sb.WriteByte(' ')
				sb.WriteString(a.String())
			}
			sb.WriteByte(')')
			t.str = sb.String()
		}
	}
	return t.str
}

func mk(sort, op string, args ...*Term) *Term { return &Term{Op: op, Args: args, Sort: sort} }
func konst(name, sort string) *Term           { return &Term{Op: name, Sort: sort} }

var (
	tTrue  = konst("true", "Bool")
	tFalse = konst("false", "Bool")
)

func tInt(n int64) *Term {
	if n < 0 {
		return mk("Int", "-", konst(strconv.FormatInt(-n, 10), "Int"))
	}
	return konst(strconv.FormatInt(n, 10), "Int")
}

func tBool(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}

func isInt(t *Term) (int64, bool) {
	if t.Op == "-" && len(t.Args) == 1 {
		n, ok := isInt(t.Args[0])
		return -n, ok
	}
	if len(t.Args) == 0 && t.Sort == "Int" {
		n, err := strconv.ParseInt(t.Op, 10, 64)
		return n, err == nil
	}
	return 0, false
}

func tNot(a *Term) *Term {
	switch {
	case a == tTrue || a.Op == "true":
		return tFalse
	case a.Op == "false":
		return tTrue
	case a.Op == "not":
		return a.Args[0]
	}
	return mk("Bool", "not", a)
}

func tAnd(as ...*Term) *Term {
	var out []*Term
	for _, a := range as {
		if a.Op == "true" {
			continue
		}
		if a.Op == "false" {
			return tFalse
		}
		if a.Op == "and" {
			out = append(out, a.Args...)
			continue
		}
		out = append(out, a)
	}
	switch len(out) {
	case 0:
		return tTrue
	case 1:
		return out[0]
	}
	return mk("Bool", "and", out...)
}

func tOr(as ...*Term) *Term {
	var out []*Term
	for _, a := range as {
		if a.Op == "false" {
			continue
		}
		if a.Op == "true" {
			return tTrue
		}
		if a.Op == "or" {
			out = append(out, a.Args...)
			continue
		}
		out = append(out, a)
	}
	switch len(out) {
	case 0:
		return tFalse
	case 1:
		return out[0]
	}
	return mk("Bool", "or", out...)
}

func tImp(a, b *Term) *Term {
	if a.Op == "true" {
		return b
	}
	if a.Op == "false" || b.Op == "true" {
		return tTrue
	}
	if b.Op == "false" {
		return tNot(a)
	}
	return mk("Bool", "=>", a, b)
}

func tEq(a, b *Term) *Term {
	if a.String() == b.String() {
		return tTrue
	}
	if a.Lit != nil && b.Lit != nil {
		return tBool(*a.Lit == *b.Lit)
	}
	if x, ok := isInt(a); ok {
		if y, ok := isInt(b); ok {
			return tBool(x == y)
		}
	}
	if a.Sort == "Bool" {
		if a.Op == "true" {
			return b
		}
		if b.Op == "true" {
			return a
		}
		if a.Op == "false" {
			return tNot(b)
		}
		if b.Op == "false" {
			return tNot(a)
		}
	}
	if a.Sort != b.Sort {
		panic(fmt.Sprintf("sort mismatch in equality: %s:%s vs %s:%s", a, a.Sort, b, b.Sort))
	}
	return mk("Bool", "=", a, b)
}

func tIte(c, a, b *Term) *Term {
	if c.Op == "true" {
		return a
	}
	if c.Op == "false" {
		return b
	}
	if a.String() == b.String() {
		return a
	}
	if a.Sort == "Bool" {
		if a.Op == "true" && b.Op == "false" {
			return c
		}
		if a.Op == "false" && b.Op == "true" {
			return tNot(c)
		}
	}
	if a.Sort != b.Sort {
		panic(fmt.Sprintf("sort mismatch in ite: %s:%s vs %s:%s", a, a.Sort, b, b.Sort))
	}
	return mk(a.Sort, "ite", c, a, b)
}

func tAdd(a, b *Term) *Term {
	if x, ok := isInt(a); ok {
		if y, ok := isInt(b); ok {
			return tInt(x + y)
		}
		if x == 0 {
			return b
		}
	}
	if y, ok := isInt(b); ok && y == 0 {
		return a
	}
	// (x + c1) + c2
	if y, ok := isInt(b); ok && a.Op == "+" && len(a.Args) == 2 {
		if z, ok := isInt(a.Args[1]); ok {
			return tAdd(a.Args[0], tInt(y+z))
		}
	}
	return mk("Int", "+", a, b)
}

func tSub(a, b *Term) *Term {
	if y, ok := isInt(b); ok {
		return tAdd(a, tInt(-y))
	}
	return mk("Int", "-", a, b)
}

func tLe(a, b *Term) *Term {
	if x, ok := isInt(a); ok {
		if y, ok := isInt(b); ok {
			return tBool(x <= y)
		}
	}
	return mk("Bool", "<=", a, b)
}

func tLt(a, b *Term) *Term {
	if x, ok := isInt(a); ok {
		if y, ok := isInt(b); ok {
			return tBool(x < y)
		}
	}
	return mk("Bool", "<", a, b)
}

// tIdx is the position of an element of a slice. It is an uninterpreted function, defined as the sum, so
// that it can be used in patterns.
func tIdx(off, i *Term) *Term { return mk("Int", "idx", off, i) }

func arraySort(i, e string) string { return "(Array " + i + " " + e + ")" }

// arrayParts splits an array sort into its index and element sorts.
func arrayParts(s string) (string, string) {
	if !strings.HasPrefix(s, "(Array ") {
		panic("not an array sort: " + s)
	}
	body := s[7 : len(s)-1]
	depth := 0
	for i, c := range body {
		switch c {
		case '(':
			depth++
		case ')':
			depth--
		case ' ':
			if depth == 0 {
				return body[:i], body[i+1:]
			}
		}
	}
	panic("bad array sort: " + s)
}

func tSelect(a, i *Term) *Term {
	_, e := arrayParts(a.Sort)
	return mk(e, "select", a, i)
}

func tStore(a, i, v *Term) *Term {
	is, e := arrayParts(a.Sort)
	if i.Sort != is || v.Sort != e {
		panic(fmt.Sprintf("bad store: array %s, index %s, value %s:%s", a.Sort, i.Sort, v, v.Sort))
	}
	return mk(a.Sort, "store", a, i, v)
}

// tCat builds a normalised (flattened, right associated) string concatenation.
func (c *Ctx) tCat(ts ...*Term) *Term {
	var flat []*Term
	var walk func(t *Term)
	walk = func(t *Term) {
		if t.Op == "strcat" {
			walk(t.Args[0])
			walk(t.Args[1])
			return
		}
		if d, ok := c.strDefs[t.Op]; ok && len(t.Args) == 0 {
			walk(d)
			return
		}
		if t.Lit != nil {
			if *t.Lit == "" {
				return
			}
			if n := len(flat); n > 0 && flat[n-1].Lit != nil {
				flat[n-1] = c.strLit(*flat[n-1].Lit + *t.Lit)
				return
			}
		}
		flat = append(flat, t)
	}
	for _, t := range ts {
		walk(t)
	}
	if len(flat) == 0 {
		return c.strLit("")
	}
	r := flat[len(flat)-1]
	for i := len(flat) - 2; i >= 0; i-- {
		r = mk("Str", "strcat", flat[i], r)
	}
	return r
}

// Ctx is the sink of declarations and facts of one verification task.
type Ctx struct {
	decls   []string
	declSet map[string]bool
	items   []item
	n       int
	lits    map[string]*Term
	litList []string
	strDefs map[string]*Term
	defs    map[string]*Term
	sorts   map[string]bool
}

// item is one line of the script: a definition, a fact or a check.
type item struct {
	kind  string // def, fact, check
	text  string
	goal  *Term
	check *Check
	cand  *Cand // fact or check that belongs to a loop invariant candidate
}

type Check struct {
	Name   string
	Kind   string
	Detail string
	Pos    string
	Result string
	Secs   float64
	Solver string
	Goal   string
	Clause int
}

type Cand struct {
	id     int
	label  string
	dead   bool
	user   bool
	loop   string
	killer string
}

func newCtx() *Ctx {
	return &Ctx{declSet: map[string]bool{}, lits: map[string]*Term{}, strDefs: map[string]*Term{}, defs: map[string]*Term{}, sorts: map[string]bool{}}
}

func (c *Ctx) fresh(hint string) string {
	c.n++
	return fmt.Sprintf("%s!%d", sanitize(hint), c.n)
}

func sanitize(s string) string {
	var sb strings.Builder
	for _, r := range s {
		switch {
		case r >= 'a' && r <= 'z', r >= 'A' && r <= 'Z', r >= '0' && r <= '9', r == '_', r == '.', r == '!', r == '$', r == '%', r == '-':
			sb.WriteRune(r)
		default:
			sb.WriteByte('_')
		}
	}
	s = sb.String()
	if s == "" || (s[0] >= '0' && s[0] <= '9') {
		s = "x" + s
	}
	return s
}

func (c *Ctx) declare(name, sort string, args ...string) {
	if c.declSet[name] {
		return
	}
	c.declSet[name] = true
	c.sortOf(sort)
	for _, a := range args {
		c.sortOf(a)
	}
	c.decls = append(c.decls, fmt.Sprintf("(declare-fun %s (%s) %s)", name, strings.Join(args, " "), sort))
}

// sortOf declares uninterpreted sorts on first use.
func (c *Ctx) sortOf(s string) {
	for _, w := range strings.FieldsFunc(s, func(r rune) bool { return r == '(' || r == ')' || r == ' ' }) {
		if strings.HasPrefix(w, "O_") && !c.sorts[w] {
			c.sorts[w] = true
		}
	}
}

func (c *Ctx) freshConst(hint, sort string) *Term {
	n := c.fresh(hint)
	c.declare(n, sort)
	return konst(n, sort)
}

// name gives a name to a term so that it can be shared.
func (c *Ctx) name(hint string, t *Term) *Term {
	if len(t.Args) == 0 {
		return t
	}
	n := c.fresh(hint)
	c.sortOf(t.Sort)
	if t.Op == "ite" && t.Sort != "Bool" {
		// Definitions are expanded by the solver, and conditionals aren't allowed in patterns.
		c.declare(n, t.Sort)
		c.items = append(c.items, item{kind: "fact", text: fmt.Sprintf("(= %s %s)", n, t)})
		c.defs[n] = t
		return konst(n, t.Sort)
	}
	c.items = append(c.items, item{kind: "def", text: fmt.Sprintf("(define-fun %s () %s %s)", n, t.Sort, t)})
	c.defs[n] = t
	if t.Sort == "Str" && t.Op == "strcat" {
		c.strDefs[n] = t
	}
	return konst(n, t.Sort)
}

func (c *Ctx) fact(t *Term) {
	if t.Op == "true" {
		return
	}
	c.items = append(c.items, item{kind: "fact", text: t.String()})
}

func (c *Ctx) candFact(cd *Cand, t *Term) {
	c.items = append(c.items, item{kind: "fact", text: t.String(), cand: cd})
}

func (c *Ctx) check(ch *Check, goal *Term, cd *Cand) {
	c.items = append(c.items, item{kind: "check", goal: goal, check: ch, cand: cd})
}

func (c *Ctx) strLit(s string) *Term {
	if t, ok := c.lits[s]; ok {
		return t
	}
	n := fmt.Sprintf("lit!%d!%s", len(c.lits), sanitize(trunc(s, 24)))
	t := &Term{Op: n, Sort: "Str", Lit: &s}
	c.lits[s] = t
	c.litList = append(c.litList, s)
	return t
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

// prelude prints the fixed part of the script: sorts, datatypes and axioms of the built-in theory.
func (c *Ctx) prelude() string {
	var sb strings.Builder
	sb.WriteString("(declare-sort Str 0)\n(declare-sort Flt 0)\n")
	var ss []string
	for s := range c.sorts {
		ss = append(ss, s)
	}
	sort.Strings(ss)
	for _, s := range ss {
		fmt.Fprintf(&sb, "(declare-sort %s 0)\n", s)
	}
	sb.WriteString(basePrelude)
	for _, s := range c.litList {
		t := c.lits[s]
		fmt.Fprintf(&sb, "(declare-fun %s () Str)\n(assert (= (strlen %s) %d))\n", t.Op, t.Op, len(s))
	}
	if len(c.litList) > 1 {
		sb.WriteString("(assert (distinct")
		for _, s := range c.litList {
			sb.WriteString(" " + c.lits[s].Op)
		}
		sb.WriteString("))\n")
	}
	if t, ok := c.lits[""]; ok {
		fmt.Fprintf(&sb, "(assert (forall ((a Str)) (! (= (strcat %s a) a) :pattern ((strcat %s a)))))\n", t.Op, t.Op)
		fmt.Fprintf(&sb, "(assert (forall ((a Str)) (! (= (strcat a %s) a) :pattern ((strcat a %s)))))\n", t.Op, t.Op)
		fmt.Fprintf(&sb, "(assert (forall ((a Str)) (! (=> (= (strlen a) 0) (= a %s)) :pattern ((strlen a)))))\n", t.Op)
	}
	// Literals that are the concatenation of others:
	for _, x := range c.litList {
		for i := 1; i < len(x); i++ {
			a, oka := c.lits[x[:i]]
			b, okb := c.lits[x[i:]]
			if oka && okb {
				fmt.Fprintf(&sb, "(assert (= (strcat %s %s) %s))\n", a.Op, b.Op, c.lits[x].Op)
			}
		}
	}
	// Order facts between literals:
	lits := append([]string{}, c.litList...)
	sort.Strings(lits)
	if len(lits) <= 40 {
		for i := 0; i+1 < len(lits); i++ {
			fmt.Fprintf(&sb, "(assert (strlt %s %s))\n", c.lits[lits[i]].Op, c.lits[lits[i+1]].Op)
		}
	}
	return sb.String()
}

const basePrelude = `
(declare-datatypes ((Slice 0)) (((mkslice (sarr Int) (soff Int) (slen Int) (scap Int)))))
(declare-datatypes ((Iface 0)) (((inil) (iref (ireft Int) (irefv Int)) (iint (iintt Int) (iintv Int)) (istr (istrt Int) (istrv Str)) (ibool (iboolt Int) (iboolv Bool)) (islice (islicet Int) (islicev Slice)) (iflt (ifltt Int) (ifltv Flt)) (iother (iothert Int) (iotherv Int)))))
(declare-datatypes ((LI 0)) (((li.nil) (li.snoc (li.init LI) (li.last Int)))))
(declare-datatypes ((LS 0)) (((ls.nil) (ls.snoc (ls.init LS) (ls.last Str)))))
(declare-fun base (Int) Int)
(declare-fun idx (Int Int) Int)
(assert (forall ((o Int) (i Int)) (! (= (idx o i) (+ o i)) :pattern ((idx o i)))))
(declare-fun strcat (Str Str) Str)
(declare-fun strlen (Str) Int)
(declare-fun strlt (Str Str) Bool)
(declare-fun pow2 (Int) Int)
(assert (forall ((a Str)) (! (>= (strlen a) 0) :pattern ((strlen a)))))
(assert (forall ((a Str) (b Str)) (! (= (strlen (strcat a b)) (+ (strlen a) (strlen b))) :pattern ((strcat a b)))))
(assert (forall ((a Str) (b Str) (c Str)) (! (= (strcat (strcat a b) c) (strcat a (strcat b c))) :pattern ((strcat (strcat a b) c)))))
(assert (forall ((a Str)) (! (not (strlt a a)) :pattern ((strlt a a)))))
(assert (forall ((a Str) (b Str)) (! (or (strlt a b) (strlt b a) (= a b)) :pattern ((strlt a b)))))
(assert (forall ((a Str) (b Str)) (! (not (and (strlt a b) (strlt b a))) :pattern ((strlt a b)))))
(assert (forall ((a Str) (b Str) (c Str)) (! (=> (and (strlt a b) (strlt b c)) (strlt a c)) :pattern ((strlt a b) (strlt b c)))))
(assert (= (base 0) 0))
`
