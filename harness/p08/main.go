// Harness of the conventions of methods: a model is accepted exactly when all its methods meet the
// conventions.
package main

import (
	"fmt"
	"path/filepath"
	"strings"

	. "verifharness/h"
	"verifharness/model"
)

func main() { Main(run) }

// The version has a class, a struct and an enum; the methods use those and the built-in types.
var types = []*model.Type{
	{Decl: model.Decl{Name: model.N("cluster")}, Kind: "class", Attrs: []*model.Attr{{Decl: model.Decl{Name: model.N("name")}, Ref: model.Plain("string")}}},
	{Decl: model.Decl{Name: model.N("quota")}, Kind: "struct", Attrs: []*model.Attr{{Decl: model.Decl{Name: model.N("limit")}, Ref: model.Plain("integer")}}},
	{Decl: model.Decl{Name: model.N("state")}, Kind: "enum", Values: []*model.Value{{Decl: model.Decl{Name: model.N("ready")}}}},
}

var scalarNames = []string{"boolean", "integer", "long", "float", "string", "date", "interface", "state"}

func kind(r model.Ref) string {
	switch {
	case r.Kind != "plain":
		return r.Kind
	case r.Element.String() == "cluster" || r.Element.String() == "quota":
		return "struct"
	default:
		return "scalar"
	}
}

// problems is the independent statement of the conventions.
func problems(m *model.Method) (l []string) {
	bad := func(format string, args ...interface{}) { l = append(l, fmt.Sprintf(format, args...)) }
	for _, p := range m.Params {
		t := ""
		if p.Ref.Kind == "plain" {
			t = p.Ref.Element.String()
		}
		switch p.Default.(type) {
		case bool:
			if t != "boolean" {
				bad("default of %s", p.Name)
			}
		case int:
			if t != "integer" {
				bad("default of %s", p.Name)
			}
		case string:
			if t != "string" {
				bad("default of %s", p.Name)
			}
		}
	}
	count := func(f func(p *model.Param) bool) (n int) {
		for _, p := range m.Params {
			if f(p) {
				n++
			}
		}
		return
	}
	every := func(what string, f, g func(p *model.Param) bool) {
		for _, p := range m.Params {
			if f(p) && !g(p) {
				bad("%s: %s", what, p.Name)
			}
		}
	}
	any := func(*model.Param) bool { return true }
	is := func(kinds ...string) func(p *model.Param) bool {
		return func(p *model.Param) bool {
			for _, k := range kinds {
				if kind(p.Ref) == k {
					return true
				}
			}
			return false
		}
	}
	dir := func(in, out bool) func(p *model.Param) bool {
		return func(p *model.Param) bool { return p.In == in && p.Out == out }
	}
	called := func(n string) func(p *model.Param) bool {
		return func(p *model.Param) bool { return p.Name.String() == n }
	}
	in := func(p *model.Param) bool { return p.In }
	out := func(p *model.Param) bool { return p.Out }
	paging := func() {
		items := false
		for _, p := range m.Params {
			integer := p.Ref.Kind == "plain" && p.Ref.Element.String() == "integer"
			switch p.Name.String() {
			case "page":
				if !integer || !p.In || !p.Out || p.Default != 1 {
					bad("page")
				}
			case "size":
				if !integer || !p.In || !p.Out || p.Default != 100 {
					bad("size")
				}
			case "total":
				if !integer || p.In || !p.Out {
					bad("total")
				}
			case "items":
				items = true
			}
		}
		if !items {
			bad("no items")
		}
	}
	switch m.Name.String() {
	case "add":
		every("kind", any, is("scalar", "struct"))
		if count(is("struct")) != 1 {
			bad("number of structs")
		}
		every("direction of body", is("struct"), dir(true, true))
		every("name of body", is("struct"), called("body"))
	case "delete", "async_delete":
		every("kind", any, is("scalar"))
		every("direction", any, dir(true, false))
	case "get":
		every("kind", any, is("scalar", "struct"))
		if count(is("struct")) != 1 {
			bad("number of structs")
		}
		every("direction of scalar", is("scalar"), dir(true, false))
		every("direction of body", is("struct"), dir(false, true))
		every("name of body", is("struct"), called("body"))
	case "list":
		every("kind", any, is("scalar", "list"))
		if count(is("list")) != 1 {
			bad("number of lists")
		}
		every("direction of items", is("list"), dir(false, true))
		every("name of items", is("list"), called("items"))
		paging()
	case "post":
		if count(in) > 1 {
			bad("number of inputs")
		}
		if count(out) != 1 {
			bad("number of outputs")
		}
		every("kind of input", in, is("struct"))
		every("kind of output", out, is("struct"))
	case "search":
		every("kind of output", out, is("scalar", "list"))
		every("kind of input", in, is("scalar", "struct"))
		if count(is("list")) != 1 {
			bad("number of lists")
		}
		every("direction of items", is("list"), dir(false, true))
		every("name of items", is("list"), called("items"))
		structIn := func(p *model.Param) bool { return p.In && is("struct")(p) }
		if count(structIn) != 1 {
			bad("number of bodies")
		}
		every("direction of body", structIn, dir(true, false))
		every("name of body", structIn, called("body"))
		paging()
	case "update", "async_update":
		every("kind", any, is("scalar", "struct", "list"))
		if count(is("struct", "list")) != 1 {
			bad("number of bodies")
		}
		every("direction of scalar", is("scalar"), dir(true, false))
		every("direction of body", is("struct", "list"), dir(true, true))
		every("name of body", is("struct", "list"), called("body"))
	}
	return
}

type gen struct {
	h *H
	g *model.Gen
}

func (g *gen) ref() model.Ref {
	switch g.h.Rand.Intn(8) {
	case 0, 1:
		return model.Plain(g.h.Pick("cluster", "quota"))
	case 2:
		return model.Ref{Kind: "list", Element: model.N(g.h.Pick("cluster", "quota", "string", "state", "integer"))}
	case 3:
		return model.Ref{Kind: "map", Index: model.N("string"), Element: model.N(g.h.Pick("cluster", "string", "state"))}
	default:
		return model.Plain(scalarNames[g.h.Rand.Intn(len(scalarNames))])
	}
}

func (g *gen) value() interface{} {
	switch g.h.Rand.Intn(6) {
	case 0:
		return g.h.Rand.Intn(2) == 0
	case 1:
		return []int{0, 1, 2, 10, 99, 100, 101, 1000}[g.h.Rand.Intn(8)]
	case 2:
		return g.h.Pick("", "1", "text")
	default:
		return nil
	}
}

func (g *gen) dir() (bool, bool) {
	in := g.h.Rand.Intn(2) == 0
	return in, !in || g.h.Rand.Intn(3) == 0
}

func (g *gen) name(m *model.Method) (model.ID, bool) {
	n := model.N(g.h.Pick("body", "items", "page", "size", "total", "filter", "dry_run", "body_x", "request", "page_size"))
	for _, p := range m.Params {
		if p.Name.Snake() == n.Snake() {
			return nil, false
		}
	}
	return n, true
}

// mutate makes one small change in the method.
func (g *gen) mutate(m *model.Method) {
	r := g.h.Rand
	if len(m.Params) == 0 || r.Intn(6) == 0 {
		if n, ok := g.name(m); ok {
			p := &model.Param{Decl: model.Decl{Name: n}, Ref: g.ref()}
			p.In, p.Out = g.dir()
			if r.Intn(3) == 0 {
				p.Default = g.value()
			}
			m.Params = append(m.Params, p)
		}
		return
	}
	i := r.Intn(len(m.Params))
	p := m.Params[i]
	switch r.Intn(6) {
	case 0:
		m.Params = append(m.Params[:i:i], m.Params[i+1:]...)
	case 1:
		p.In, p.Out = g.dir()
	case 2:
		p.Ref = g.ref()
	case 3:
		p.Default = g.value()
	case 4:
		if n, ok := g.name(m); ok {
			p.Name = n
		}
	case 5:
		std := model.N(model.Standard[r.Intn(len(model.Standard))])
		if len(m.Params) > 1 && r.Intn(2) == 0 {
			std = model.N(g.h.Pick("added", "get_list", "fetch", "delete_async", "list_x"))
		}
		m.Name = std
	}
}

func run(h *H) {
	dir := filepath.Join(h.Scratch, "model")
	g := &gen{h: h, g: &model.Gen{R: h.Rand, Plain: true}}
	structs := []model.ID{model.N("cluster"), model.N("quota")}
	var all []model.ID
	for _, n := range scalarNames {
		all = append(all, model.N(n))
	}
	all = append(all, structs...)
	total := h.N(6000, 120000)
	good, bad := 0, 0
	for k := 0; k < total; k++ {
		// A few methods; most of the mutated ones are one step away from a valid one.
		m := &model.Model{}
		v := &model.Version{Name: model.N("v1"), Types: types}
		root := &model.Resource{Decl: model.Decl{Name: model.N("root")}}
		other := &model.Resource{Decl: model.Decl{Name: model.N("clusters")}}
		root.Locators = []*model.Locator{{Decl: model.Decl{Name: model.N("clusters")}, Target: other.Name}}
		v.Resources = []*model.Resource{root, other}
		m.Services = []*model.Service{{Name: model.N("mgmt"), Versions: []*model.Version{v}}}
		var wrong []string
		n := 1
		if h.Rand.Intn(4) == 0 {
			n = 3
		}
		seen := map[string]bool{}
		for i := 0; i < n; i++ {
			used := map[string]bool{}
			x := g.g.Method(used, structs, all, []model.ID{model.N("state")})
			if i == n-1 || h.Rand.Intn(4) == 0 {
				for j := []int{0, 1, 1, 1, 2, 3}[h.Rand.Intn(6)]; j > 0; j-- {
					g.mutate(x)
				}
			}
			if seen[x.Name.Snake()] {
				continue
			}
			seen[x.Name.Snake()] = true
			for _, p := range problems(x) {
				wrong = append(wrong, x.Name.String()+": "+p)
			}
			if h.Rand.Intn(2) == 0 {
				root.Methods = append(root.Methods, x)
			} else {
				other.Methods = append(other.Methods, x)
			}
		}
		if err := model.Clean(dir); err != nil {
			h.Fail("harness", "%v", err)
			return
		}
		text, err := model.Style{Rand: h.Rand}.Write(m, dir)
		if err != nil {
			h.Fail("harness", "%v", err)
			return
		}
		h.Case(text, func() {
			r := model.Read(dir)
			if len(wrong) == 0 {
				good++
				h.True("methods that meet the conventions are accepted", r.Err == nil && r.Count == 0, "%v %s", r.Err, r.Errors)
			} else {
				bad++
				h.True("methods that break a convention are rejected", r.Err != nil && r.Count > 0, "accepted, but: %s", strings.Join(wrong, "; "))
			}
		})
		if h.Failed() && k > 500 {
			break
		}
	}
	h.Bound("%d random models, %d valid and %d invalid; methods with up to about 8 parameters, each a few changes away from a valid one", total, good, bad)
}
