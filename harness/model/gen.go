package model

import (
	"fmt"
	"math/rand"
)

// Gen generates random valid models.
type Gen struct {
	R *rand.Rand
	// Plain avoids documentation and annotations.
	Plain bool
	// Go makes sure that the identifiers of the generated code are different.
	Go bool
	// Size is the approximate number of types and resources.
	Size int
}

var wordPool = []string{"cluster", "node", "pool", "cloud", "region", "addon", "machine", "flavour", "quota", "role", "user", "group", "label",
	"key", "state", "zone", "disk", "image", "event", "rule", "plan", "phase", "token", "domain", "subnet"}
var initPool = []string{"AWS", "CPU", "DNS", "URL", "GCP", "VPC", "SSH"}

// ID returns a random name that isn't in the set, and adds it.
func (g *Gen) ID(used map[string]bool) ID {
	for {
		var n ID
		k := 1 + g.R.Intn(3)
		for i := 0; i < k; i++ {
			if g.R.Intn(5) == 0 && (i == 0 || !initialism(n[i-1])) {
				n = append(n, initPool[g.R.Intn(len(initPool))])
			} else {
				n = append(n, wordPool[g.R.Intn(len(wordPool))])
			}
		}
		if !used[n.Snake()] {
			used[n.Snake()] = true
			return n
		}
	}
}

func (g *Gen) decl(n ID, anns ...string) Decl {
	d := Decl{Name: n}
	if g.Plain {
		return d
	}
	if g.R.Intn(2) == 0 {
		k := 1 + g.R.Intn(3)
		for i := 0; i < k; i++ {
			l := []string{"Some text.", "More `text` here", "  indented", "* item", "Ünïcode", "a // b", "x", "the  end "}
			t := l[g.R.Intn(len(l))]
			if i == 0 && t[0] == ' ' {
				t = "First"
			}
			if i > 0 && i < k-1 && g.R.Intn(4) == 0 {
				t = ""
			}
			d.Doc = append(d.Doc, t)
		}
	}
	for _, a := range anns {
		if g.R.Intn(5) == 0 {
			d.Anns = append(d.Anns, Ann{Name: a, Params: []AnnParam{{"name", fmt.Sprintf("%s_x%d", n.Snake(), g.R.Intn(10))}}})
		}
	}
	if g.R.Intn(6) == 0 {
		a := Ann{Name: "custom"}
		if g.R.Intn(2) == 0 {
			a.Params = append(a.Params, AnnParam{"flag", g.R.Intn(2) == 0})
		}
		if g.R.Intn(2) == 0 {
			a.Params = append(a.Params, AnnParam{"count", g.R.Intn(100)})
		}
		if g.R.Intn(2) == 0 {
			a.Params = append(a.Params, AnnParam{"path", "a/\"b\" \\ c"})
		}
		d.Anns = append(d.Anns, a)
	}
	return d
}

func (g *Gen) pick(l []ID) ID { return l[g.R.Intn(len(l))] }

// Model generates a model.
func (g *Gen) Model() *Model {
	m := &Model{}
	used := map[string]bool{}
	for i := 0; i < 1+g.R.Intn(2); i++ {
		s := &Service{Name: lower(g.ID(used))}
		vused := map[string]bool{}
		for j := 0; j < 1+g.R.Intn(2); j++ {
			n := ID{fmt.Sprintf("v%d", 1+g.R.Intn(9))}
			if vused[n.String()] {
				continue
			}
			vused[n.String()] = true
			v := g.Version()
			v.Name = n
			s.Versions = append(s.Versions, v)
		}
		m.Services = append(m.Services, s)
	}
	return m
}

func lower(n ID) ID { return N(n.Snake()) }

// Version generates a version.
func (g *Gen) Version() *Version {
	v := &Version{}
	used := map[string]bool{"root": true}
	size := g.Size
	if size == 0 {
		size = 4
	}
	var structs, classes, enums, all []ID
	for _, b := range Builtins {
		all = append(all, N(b))
	}
	for i := 0; i < 1+g.R.Intn(size); i++ {
		t := &Type{Kind: []string{"class", "struct", "class", "enum"}[g.R.Intn(4)]}
		if i == 0 {
			t.Kind = "class"
		}
		t.Decl = g.decl(g.ID(used))
		v.Types = append(v.Types, t)
		switch t.Kind {
		case "enum":
			enums = append(enums, t.Name)
		case "class":
			classes = append(classes, t.Name)
			structs = append(structs, t.Name)
		default:
			structs = append(structs, t.Name)
		}
		all = append(all, t.Name)
	}
	for _, t := range v.Types {
		mused := map[string]bool{"id": true, "kind": true, "href": true, "link": true}
		k := g.R.Intn(5)
		if t.Kind == "enum" {
			for i := 0; i < 1+k; i++ {
				n := g.ID(mused)
				if g.Go {
					n = Cat(ID{"as"}, n)
				}
				t.Values = append(t.Values, &Value{g.decl(n, "json")})
			}
			continue
		}
		for i := 0; i < k; i++ {
			a := &Attr{Decl: g.decl(g.ID(mused), "json")}
			switch g.R.Intn(7) {
			case 0:
				a.Ref = Ref{Kind: "list", Element: g.pick(all)}
				a.Link = g.contains(classes, a.Ref.Element) && g.R.Intn(2) == 0
			case 1:
				a.Ref = Ref{Kind: "map", Index: N("string"), Element: g.pick(all)}
			case 2:
				a.Ref = Ref{Kind: "plain", Element: g.pick(classes)}
				a.Link = g.R.Intn(2) == 0
			default:
				a.Ref = Ref{Kind: "plain", Element: g.pick(all)}
			}
			t.Attrs = append(t.Attrs, a)
		}
	}
	var rs []ID
	rs = append(rs, N("root"))
	rused := map[string]bool{"root": true}
	for i := 0; i < g.R.Intn(size); i++ {
		rs = append(rs, g.ID(rused))
	}
	for i, n := range rs {
		r := &Resource{Decl: g.decl(n)}
		if i == 0 {
			r.Decl.Anns = nil
		}
		mused := map[string]bool{}
		if g.Go && i == 0 {
			// The client of the root resource already has a `Get` method, to get the metadata.
			mused["get"] = true
		}
		for k := g.R.Intn(4); k > 0; k-- {
			r.Methods = append(r.Methods, g.Method(mused, structs, all, enums))
		}
		lused := map[string]bool{}
		for k := range r.Methods {
			lused[r.Methods[k].Name.Snake()] = true
		}
		for j := i + 1; j < len(rs); j++ {
			if g.R.Intn(2) == 0 {
				l := &Locator{Decl: g.decl(g.ID(lused), "http"), Target: rs[j]}
				l.Variable = g.R.Intn(2) == 0 && !r.hasVariable()
				r.Locators = append(r.Locators, l)
			}
		}
		v.Resources = append(v.Resources, r)
	}
	eused := map[string]bool{}
	for i := 0; i < g.R.Intn(4); i++ {
		v.Errors = append(v.Errors, &Error{Decl: g.decl(g.ID(eused)), Code: g.R.Intn(1000)})
	}
	return v
}

func (r *Resource) hasVariable() bool {
	for _, l := range r.Locators {
		if l.Variable {
			return true
		}
	}
	return false
}

func (g *Gen) contains(l []ID, n ID) bool {
	for _, x := range l {
		if x.String() == n.String() {
			return true
		}
	}
	return false
}

// Standard are the names of the standard methods.
var Standard = []string{"add", "delete", "async_delete", "get", "list", "post", "search", "update", "async_update"}

// Method generates a valid method.
func (g *Gen) Method(used map[string]bool, structs, all, enums []ID) *Method {
	name := N(Standard[g.R.Intn(len(Standard))])
	if used[name.String()] || g.R.Intn(4) == 0 {
		name = g.ID(used)
		if g.Go {
			name = Cat(ID{"do"}, name)
		}
	}
	used[name.String()] = true
	m := &Method{Decl: g.decl(name, "http")}
	pused := map[string]bool{"body": true, "items": true, "page": true, "size": true, "total": true, "request": true, "response": true}
	add := func(n ID, ref Ref, in, out bool, dflt interface{}) {
		p := &Param{Decl: g.decl(n, "json", "http"), Ref: ref, In: in, Out: out, Default: dflt}
		if g.Go && n.Snake() == "items" {
			// The generated clients don't support changing the name of this one.
			p.Decl = g.decl(n)
		}
		m.Params = append(m.Params, p)
	}
	plain := func(n ID) Ref { return Ref{Kind: "plain", Element: n} }
	scalars := func(k int) {
		for i := 0; i < g.R.Intn(k+1); i++ {
			l := []ID{N("boolean"), N("integer"), N("long"), N("float"), N("string"), N("date")}
			l = append(l, enums...)
			t := g.pick(l)
			var dflt interface{}
			if g.R.Intn(3) == 0 {
				switch t.String() {
				case "boolean":
					dflt = g.R.Intn(2) == 0
				case "integer":
					dflt = g.R.Intn(1000)
				case "string":
					dflt = []string{"", "text", "a b", "q\"q"}[g.R.Intn(4)]
				}
			}
			add(g.ID(pused), plain(t), true, false, dflt)
		}
	}
	paging := func() {
		if g.R.Intn(4) > 0 {
			add(N("page"), Plain("integer"), true, true, 1)
		}
		if g.R.Intn(4) > 0 {
			add(N("size"), Plain("integer"), true, true, 100)
		}
		if g.R.Intn(4) > 0 {
			add(N("total"), Plain("integer"), false, true, nil)
		}
		add(N("items"), Ref{Kind: "list", Element: g.pick(structs)}, false, true, nil)
	}
	switch name.String() {
	case "add":
		add(N("body"), plain(g.pick(structs)), true, true, nil)
		scalars(2)
	case "delete", "async_delete":
		scalars(2)
	case "get":
		add(N("body"), plain(g.pick(structs)), false, true, nil)
		scalars(2)
	case "list":
		paging()
		scalars(2)
	case "post":
		if g.R.Intn(3) > 0 {
			add(N("request"), plain(g.pick(structs)), true, false, nil)
		}
		add(N("response"), plain(g.pick(structs)), false, true, nil)
	case "search":
		paging()
		add(N("body"), plain(g.pick(structs)), true, false, nil)
		scalars(1)
	case "update", "async_update":
		if g.R.Intn(5) == 0 {
			add(N("body"), Ref{Kind: "list", Element: g.pick(structs)}, true, true, nil)
		} else {
			add(N("body"), plain(g.pick(structs)), true, true, nil)
		}
		scalars(2)
	default:
		for i := 0; i < g.R.Intn(4); i++ {
			r := plain(g.pick(all))
			switch g.R.Intn(8) {
			case 0, 1:
				r.Kind = "list"
			case 2:
				r.Kind, r.Index = "map", N("string")
			}
			in := g.R.Intn(2) == 0
			add(g.ID(pused), r, in, !in || g.R.Intn(3) == 0, nil)
		}
	}
	return m
}
