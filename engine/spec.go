package main

// Parser of the contract language. See /verif/contracts/README.md for a description.

import (
	"fmt"
	"os"
	"strconv"
	"strings"
	"text/scanner"
)

type Expr interface{}

type (
	EIdent struct{ Name string }
	EInt   struct{ N int64 }
	EStr   struct{ S string }
	EBool  struct{ B bool }
	ENil   struct{}
	ESel   struct {
		X    Expr
		Name string
	}
	EIndex struct{ X, I Expr }
	ECall  struct {
		Fn   Expr
		Args []Expr
	}
	EUn struct {
		Op string
		X  Expr
	}
	EBin struct {
		Op   string
		X, Y Expr
	}
	ECond  struct{ C, A, B Expr }
	EQuant struct {
		Forall   bool
		Vars     []QVar
		Triggers [][]Expr
		Body     Expr
	}
	ELet struct {
		Name string
		X    Expr
		Body Expr
	}
)

type QVar struct {
	Name   string
	Type   *TypeExpr
	Lo, Hi Expr
}

type TypeExpr struct {
	Kind string // name, ptr, slice, map, seq
	Pkg  string
	Name string
	Elem *TypeExpr
	Key  *TypeExpr
}

func (t *TypeExpr) String() string {
	switch t.Kind {
	case "ptr":
		return "*" + t.Elem.String()
	case "slice":
		return "[]" + t.Elem.String()
	case "seq":
		return "seq " + t.Elem.String()
	case "map":
		return "map[" + t.Key.String() + "]" + t.Elem.String()
	}
	if t.Pkg != "" {
		return t.Pkg + "." + t.Name
	}
	return t.Name
}

type Param struct {
	Name string
	Type *TypeExpr
}

type Clause struct {
	Label string
	E     Expr
	Text  string
	Props []string
}

type InvTemplate struct {
	Calls string // only for the loops that call this function
	Vars  []Param
	E     Expr
	Text  string
}

type Contract struct {
	Target    string
	Full      string
	Extern    bool
	Params    []string
	Results   []string
	Requires  []Clause
	Ensures   []Clause
	Modifies  []Expr
	ModAll    bool
	Props     []string
	Invs      []InvTemplate
	Steps     []InvTemplate
	NoPanic   bool
	Is        Expr
	Opaque    bool
	NoFrame   bool
	AssumePre bool
	Hide      []string
	// Heavy contracts aren't verified again by the checks of other properties that use them.
	Heavy bool
	Fresh bool
	Insts []Clause // consequences of the preconditions, proved and used at the entry
	File  string
	Line  int
}

type Def struct {
	Name   string
	Params []Param
	Result *TypeExpr
	Body   Expr
	Rec    bool
	Fun    bool // uninterpreted
}

type Axiom struct {
	Name    string
	E       Expr
	Text    string
	Trusted bool
	File    string
}

type Lemma struct {
	Name   string
	Params []Param
	Induct string
	E      Expr
	Trig   [][]Expr
	Props  []string
	Text   string
	Uses   []string
}

type Ghost struct {
	Type *TypeExpr
	Name string
	Sort *TypeExpr
}

type Spec struct {
	Imports     map[string]string
	Defs        map[string]*Def
	DefOrder    []string
	Axioms      []*Axiom
	Lemmas      []*Lemma
	Ghosts      []*Ghost
	Transparent []*TypeExpr
	GlobalFacts []*Axiom
	Contracts   map[string]*Contract
	Order       []string
	Groups      map[string][]InvTemplate
}

func newSpec() *Spec {
	return &Spec{Imports: map[string]string{}, Defs: map[string]*Def{}, Contracts: map[string]*Contract{}, Groups: map[string][]InvTemplate{}}
}

type tok struct {
	kind string // id, int, str, op, eof
	text string
	pos  scanner.Position
	off  int
}

type parser struct {
	toks []tok
	i    int
	file string
	src  string
}

var multiOps = []string{"<==>", "==>", "..", "::", "->", "==", "!=", "<=", ">=", "&&", "||", "&^", "<<", ">>"}

func lex(file, src string) []tok {
	var out []tok
	line, i := 1, 0
	lineStart := 0
	for i < len(src) {
		c := src[i]
		pos := scanner.Position{Filename: file, Line: line, Column: i - lineStart + 1}
		switch {
		case c == '\n':
			line++
			i++
			lineStart = i
		case c == ' ' || c == '\t' || c == '\r':
			i++
		case c == '/' && i+1 < len(src) && src[i+1] == '/':
			for i < len(src) && src[i] != '\n' {
				i++
			}
		case c == '"':
			j := i + 1
			for j < len(src) && src[j] != '"' {
				if src[j] == '\\' {
					j++
				}
				j++
			}
			s, err := strconv.Unquote(src[i : j+1])
			if err != nil {
				fatal("%s:%d: bad string: %v", file, line, err)
			}
			out = append(out, tok{"str", s, pos, i})
			i = j + 1
		case c >= '0' && c <= '9':
			j := i
			for j < len(src) && (src[j] >= '0' && src[j] <= '9') {
				j++
			}
			out = append(out, tok{"int", src[i:j], pos, i})
			i = j
		case c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z':
			j := i
			for j < len(src) && (src[j] == '_' || src[j] >= 'a' && src[j] <= 'z' || src[j] >= 'A' && src[j] <= 'Z' || src[j] >= '0' && src[j] <= '9') {
				j++
			}
			out = append(out, tok{"id", src[i:j], pos, i})
			i = j
		default:
			done := false
			for _, m := range multiOps {
				if strings.HasPrefix(src[i:], m) {
					out = append(out, tok{"op", m, pos, i})
					i += len(m)
					done = true
					break
				}
			}
			if !done {
				out = append(out, tok{"op", string(c), pos, i})
				i++
			}
		}
	}
	out = append(out, tok{"eof", "", scanner.Position{Filename: file, Line: line}, len(src)})
	return out
}

func fatal(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "gov: "+f+"\n", a...)
	os.Exit(3)
}

func (p *parser) peek() tok { return p.toks[p.i] }
func (p *parser) next() tok { t := p.toks[p.i]; p.i++; return t }
func (p *parser) fail(f string, a ...interface{}) {
	t := p.peek()
	fatal("%s:%d:%d: %s (at '%s')", p.file, t.pos.Line, t.pos.Column, fmt.Sprintf(f, a...), t.text)
}
func (p *parser) is(text string) bool {
	t := p.peek()
	return (t.kind == "op" || t.kind == "id") && t.text == text
}
func (p *parser) accept(text string) bool {
	if p.is(text) {
		p.i++
		return true
	}
	return false
}
func (p *parser) expect(text string) {
	if !p.accept(text) {
		p.fail("expected '%s'", text)
	}
}
func (p *parser) ident() string {
	t := p.next()
	if t.kind != "id" {
		p.i--
		p.fail("expected identifier")
	}
	return t.text
}

func (p *parser) typ() *TypeExpr {
	switch {
	case p.accept("*"):
		return &TypeExpr{Kind: "ptr", Elem: p.typ()}
	case p.accept("["):
		p.expect("]")
		return &TypeExpr{Kind: "slice", Elem: p.typ()}
	case p.accept("seq"):
		return &TypeExpr{Kind: "seq", Elem: p.typ()}
	case p.accept("map"):
		p.expect("[")
		k := p.typ()
		p.expect("]")
		return &TypeExpr{Kind: "map", Key: k, Elem: p.typ()}
	}
	n := p.ident()
	if p.accept(".") {
		return &TypeExpr{Kind: "name", Pkg: n, Name: p.ident()}
	}
	return &TypeExpr{Kind: "name", Name: n}
}

func (p *parser) params() []Param {
	p.expect("(")
	var out []Param
	for !p.accept(")") {
		var names []string
		names = append(names, p.ident())
		for p.accept(",") {
			names = append(names, p.ident())
		}
		p.accept(":")
		t := p.typ()
		for _, n := range names {
			out = append(out, Param{n, t})
		}
		if !p.is(")") {
			if !p.accept(";") {
				p.expect(",")
			}
		}
	}
	return out
}

func (p *parser) expr() Expr { return p.exprImp() }

func (p *parser) exprImp() Expr {
	if p.is("forall") || p.is("exists") {
		return p.quant()
	}
	if p.accept("let") {
		n := p.ident()
		p.expect("=")
		x := p.expr()
		p.expect("::")
		return &ELet{n, x, p.expr()}
	}
	x := p.exprCond()
	switch {
	case p.accept("==>"):
		return &EBin{"==>", x, p.exprImp()}
	case p.accept("<==>"):
		return &EBin{"<==>", x, p.exprImp()}
	}
	return x
}

func (p *parser) exprCond() Expr {
	c := p.bin(0)
	if p.accept("?") {
		a := p.exprImp()
		p.expect(":")
		b := p.exprImp()
		return &ECond{c, a, b}
	}
	return c
}

var precs = []map[string]bool{
	{"||": true}, {"&&": true},
	{"==": true, "!=": true, "<": true, "<=": true, ">": true, ">=": true, "in": true},
	{"+": true, "-": true, "|": true, "^": true},
	{"*": true, "/": true, "%": true, "&": true, "&^": true, "<<": true, ">>": true},
}

func (p *parser) bin(level int) Expr {
	if level == len(precs) {
		return p.unary()
	}
	x := p.bin(level + 1)
	for {
		t := p.peek()
		if (t.kind == "op" || t.text == "in") && precs[level][t.text] {
			p.i++
			var y Expr
			if p.is("forall") || p.is("exists") {
				y = p.quant()
			} else {
				y = p.bin(level + 1)
			}
			// chained comparisons: a <= b < c
			if level == 2 {
				if prev, ok := x.(*EBin); ok && cmpOps[prev.Op] && cmpOps[t.text] {
					x = &EBin{"&&", x, &EBin{t.text, prev.Y, y}}
					continue
				}
				if prev, ok := x.(*EBin); ok && prev.Op == "&&" && cmpOps[t.text] {
					if last, ok := prev.Y.(*EBin); ok && cmpOps[last.Op] {
						x = &EBin{"&&", x, &EBin{t.text, last.Y, y}}
						continue
					}
				}
			}
			x = &EBin{t.text, x, y}
			continue
		}
		return x
	}
}

var cmpOps = map[string]bool{"<": true, "<=": true, ">": true, ">=": true}

func (p *parser) unary() Expr {
	switch {
	case p.accept("!"):
		return &EUn{"!", p.unary()}
	case p.accept("-"):
		return &EUn{"-", p.unary()}
	case p.accept("*"):
		return &EUn{"*", p.unary()}
	case p.accept("&"):
		return &EUn{"&", p.unary()}
	}
	return p.postfix()
}

func (p *parser) postfix() Expr {
	var x Expr
	t := p.next()
	switch {
	case t.kind == "int":
		n, _ := strconv.ParseInt(t.text, 10, 64)
		x = &EInt{n}
	case t.kind == "str":
		x = &EStr{t.text}
	case t.kind == "op" && t.text == "(":
		x = p.expr()
		p.expect(")")
	case t.kind == "id":
		switch t.text {
		case "true":
			x = &EBool{true}
		case "false":
			x = &EBool{false}
		case "nil":
			x = &ENil{}
		default:
			x = &EIdent{t.text}
		}
	default:
		p.i--
		p.fail("unexpected token in expression")
	}
	for {
		switch {
		case p.is(".") && p.toks[p.i+1].kind == "id":
			p.i++
			x = &ESel{x, p.ident()}
		case p.is(".") && p.toks[p.i+1].text == "*":
			p.i += 2
			x = &ESel{x, "*"}
		case p.accept("["):
			if p.accept("*") {
				p.expect("]")
				x = &EIndex{x, nil}
				continue
			}
			i := p.expr()
			p.expect("]")
			x = &EIndex{x, i}
		case p.is("(") && callable(x):
			p.i++
			var args []Expr
			for !p.accept(")") {
				args = append(args, p.expr())
				if !p.is(")") {
					p.expect(",")
				}
			}
			x = &ECall{x, args}
		default:
			return x
		}
	}
}

func callable(x Expr) bool {
	switch x.(type) {
	case *EIdent, *ESel:
		return true
	}
	return false
}

func (p *parser) quant() Expr {
	q := &EQuant{Forall: p.next().text == "forall"}
	for {
		var names []string
		names = append(names, p.ident())
		for p.accept(",") {
			names = append(names, p.ident())
		}
		var v QVar
		if p.accept("in") {
			v.Type = &TypeExpr{Kind: "name", Name: "int"}
			v.Lo = p.bin(3)
			p.expect("..")
			v.Hi = p.bin(3)
		} else {
			v.Type = p.typ()
			if p.accept("in") {
				v.Lo = p.bin(3)
				p.expect("..")
				v.Hi = p.bin(3)
			}
		}
		for _, n := range names {
			w := v
			w.Name = n
			q.Vars = append(q.Vars, w)
		}
		if !p.accept(";") {
			break
		}
	}
	for p.accept("{") {
		var tr []Expr
		for !p.accept("}") {
			tr = append(tr, p.expr())
			if !p.is("}") {
				p.expect(",")
			}
		}
		q.Triggers = append(q.Triggers, tr)
	}
	p.expect("::")
	q.Body = p.expr()
	return q
}

func (p *parser) textFrom(start int) string {
	end := p.toks[p.i-1]
	e := end.off + len(end.text)
	if end.kind == "str" {
		e = end.off + len(strconv.Quote(end.text))
	}
	if e > len(p.src) {
		e = len(p.src)
	}
	return strings.Join(strings.Fields(p.src[p.toks[start].off:e]), " ")
}

func (p *parser) labelled(def string) Clause {
	var c Clause
	c.Label = def
	if p.accept("[") {
		for !p.accept("]") {
			c.Props = append(c.Props, p.ident())
			p.accept(",")
		}
	}
	if p.peek().kind == "id" && p.toks[p.i+1].kind == "op" && p.toks[p.i+1].text == ":" {
		c.Label = p.ident()
		p.expect(":")
	}
	start := p.i
	c.E = p.expr()
	c.Text = p.textFrom(start)
	return c
}

func (p *parser) idlist() []string {
	var out []string
	p.expect("(")
	for !p.accept(")") {
		out = append(out, p.ident())
		p.accept(",")
	}
	return out
}

func (s *Spec) parseFile(file string) {
	data, err := os.ReadFile(file)
	if err != nil {
		fatal("%v", err)
	}
	s.parseText(file, string(data))
}

func (s *Spec) parseText(file, src string) {
	p := &parser{toks: lex(file, src), file: file, src: src}
	for p.peek().kind != "eof" {
		switch {
		case p.accept("import"):
			a := p.ident()
			t := p.next()
			s.Imports[a] = t.text
		case p.accept("fun"):
			d := &Def{Fun: true, Name: p.ident(), Params: p.params()}
			d.Result = p.typ()
			s.addDef(d)
		case p.accept("define"):
			d := &Def{Name: p.ident(), Params: p.params()}
			d.Result = p.typ()
			p.expect("=")
			d.Body = p.expr()
			s.addDef(d)
		case p.accept("rec"):
			d := &Def{Rec: true, Name: p.ident(), Params: p.params()}
			d.Result = p.typ()
			p.expect("=")
			d.Body = p.expr()
			s.addDef(d)
		case p.accept("axiom"):
			a := &Axiom{Name: p.ident(), Trusted: true, File: file}
			p.expect(":")
			start := p.i
			a.E = p.expr()
			a.Text = p.textFrom(start)
			s.Axioms = append(s.Axioms, a)
		case p.accept("globalfact"):
			a := &Axiom{Name: p.ident(), Trusted: true, File: file}
			p.expect(":")
			start := p.i
			a.E = p.expr()
			a.Text = p.textFrom(start)
			s.GlobalFacts = append(s.GlobalFacts, a)
		case p.accept("transparent"):
			s.Transparent = append(s.Transparent, p.typ())
		case p.accept("ghost"):
			g := &Ghost{Type: p.typ()}
			// the parsed type is pkg.Type, the field follows
			p.expect(".")
			g.Name = p.ident()
			g.Sort = p.typ()
			s.Ghosts = append(s.Ghosts, g)
		case p.accept("lemma"):
			l := &Lemma{Name: p.ident(), Params: p.params()}
			for {
				if p.accept("props") {
					for {
						l.Props = append(l.Props, p.ident())
						if !p.accept(",") {
							break
						}
					}
				} else if p.accept("induct") {
					l.Induct = p.ident()
				} else if p.accept("uses") {
					for {
						l.Uses = append(l.Uses, p.ident())
						if !p.accept(",") {
							break
						}
					}
				} else if p.accept("{") {
					var tr []Expr
					for !p.accept("}") {
						tr = append(tr, p.expr())
						if !p.is("}") {
							p.expect(",")
						}
					}
					l.Trig = append(l.Trig, tr)
				} else {
					break
				}
			}
			p.expect(":")
			start := p.i
			l.E = p.expr()
			l.Text = p.textFrom(start)
			s.Lemmas = append(s.Lemmas, l)
		case p.accept("group"):
			// named group of invariant templates
			n := p.ident()
			for p.accept("inv") {
				s.Groups[n] = append(s.Groups[n], p.template())
			}
		case p.is("func") || p.is("extern"):
			s.parseContract(p)
		default:
			p.fail("unexpected declaration")
		}
	}
}

func (p *parser) template() InvTemplate {
	var t InvTemplate
	if p.is("[") {
		p.next()
		t.Calls = p.ident()
		p.expect("]")
	}
	if p.is("(") && p.toks[p.i+1].kind == "id" && (p.toks[p.i+2].text == ":" || p.toks[p.i+2].text == ",") {
		t.Vars = p.params()
		p.expect(":")
	}
	start := p.i
	t.E = p.expr()
	t.Text = p.textFrom(start)
	return t
}

func (s *Spec) addDef(d *Def) {
	if _, dup := s.Defs[d.Name]; dup {
		fatal("duplicate definition of %s", d.Name)
	}
	s.Defs[d.Name] = d
	s.DefOrder = append(s.DefOrder, d.Name)
}

func (s *Spec) parseContract(p *parser) {
	c := &Contract{File: p.file, Line: p.peek().pos.Line}
	if p.accept("extern") {
		c.Extern = true
	}
	p.expect("func")
	t := p.next()
	if t.kind != "str" {
		p.fail("expected quoted function name")
	}
	c.Target = t.text
	c.Params = p.idlist()
	if p.accept("->") {
		c.Results = p.idlist()
	}
	n := 0
	for {
		switch {
		case p.accept("props"):
			for {
				c.Props = append(c.Props, p.ident())
				if !p.accept(",") {
					break
				}
			}
		case p.accept("requires"):
			c.Requires = append(c.Requires, p.labelled(fmt.Sprintf("pre%d", len(c.Requires)+1)))
		case p.accept("ensures"):
			n++
			c.Ensures = append(c.Ensures, p.labelled(fmt.Sprintf("post%d", n)))
		case p.accept("modifies"):
			if p.accept("everything") {
				c.ModAll = true
				continue
			}
			for {
				c.Modifies = append(c.Modifies, p.unary())
				if !p.accept(",") {
					break
				}
			}
		case p.accept("inv"):
			if p.accept("group") {
				g := p.ident()
				if _, ok := s.Groups[g]; !ok {
					p.fail("unknown invariant group %s", g)
				}
				c.Invs = append(c.Invs, s.Groups[g]...)
				continue
			}
			c.Invs = append(c.Invs, p.template())
		case p.accept("step"):
			c.Steps = append(c.Steps, p.template())
		case p.accept("nopanic"):
			c.NoPanic = true
		case p.accept("opaque"):
			c.Opaque = true
		case p.accept("noframe"):
			c.NoFrame = true
		case p.accept("assumepre"):
			c.AssumePre = true
		case p.accept("heavy"):
			c.Heavy = true
		case p.accept("hide"):
			for {
				c.Hide = append(c.Hide, p.ident())
				if !p.accept(",") {
					break
				}
			}
		case p.accept("freshresult"):
			c.Fresh = true
		case p.accept("is"):
			c.Is = p.expr()
		case p.accept("apply"):
			c.Insts = append(c.Insts, p.labelled("apply"))
		default:
			if _, dup := s.Contracts[c.Target]; dup {
				fatal("%s:%d: duplicate contract for %s", c.File, c.Line, c.Target)
			}
			s.Contracts[c.Target] = c
			s.Order = append(s.Order, c.Target)
			return
		}
	}
}
