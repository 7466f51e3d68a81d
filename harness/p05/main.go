// Harness of the containers of concepts.
package main

import (
	"fmt"

	"github.com/openshift-online/ocm-api-metamodel/pkg/concepts"
	"github.com/openshift-online/ocm-api-metamodel/pkg/names"
	. "verifharness/h"
)

func main() { Main(run) }

var pool = []string{"a", "b", "clusterID", "Cluster", "ListOfThings", "x", "root", "other", "AWS"}

func init() {
	for _, a := range []string{"node", "cloud", "machine", "AWS", "x"} {
		for _, b := range []string{"ID", "List", "Pool", "S", "Role"} {
			pool = append(pool, a+b)
		}
	}
}

// container is the common view of the containers of concepts.
type container struct {
	what string
	// add adds one concept with the given name, or nil if the name is empty, and returns it
	add func(name string) interface{}
	// find returns the concept with the given name
	find func(n *names.Name) interface{}
	// owner returns true if the owner of the concept is the container
	owned func(x interface{}) bool
	// all returns the concepts listed
	all func() []interface{}
	// multi is true if several concepts with the same name are kept
	multi bool
	// bulk adds several concepts at once
	bulk func(l []string) []interface{}
}

func parse(t string) *names.Name { return names.ParseUsingCase(t) }

func containers() []*container {
	m := concepts.NewModel()
	s := concepts.NewService()
	v := concepts.NewVersion()
	r := concepts.NewResource()
	t := concepts.NewType()
	meth := concepts.NewMethod()
	newService := func(n string) *concepts.Service { x := concepts.NewService(); x.SetName(parse(n)); return x }
	newVersion := func(n string) *concepts.Version { x := concepts.NewVersion(); x.SetName(parse(n)); return x }
	newType := func(n string) *concepts.Type { x := concepts.NewType(); x.SetName(parse(n)); return x }
	newResource := func(n string) *concepts.Resource { x := concepts.NewResource(); x.SetName(parse(n)); return x }
	newError := func(n string) *concepts.Error { x := concepts.NewError(); x.SetName(parse(n)); return x }
	return []*container{
		{what: "model", add: func(n string) interface{} {
			if n == "" {
				m.AddService(nil)
				return nil
			}
			x := newService(n)
			m.AddService(x)
			return x
		}, find: func(n *names.Name) interface{} {
			if x := m.FindService(n); x != nil {
				return x
			}
			return nil
		}, owned: func(x interface{}) bool { return x.(*concepts.Service).Owner() == m }, all: func() (l []interface{}) {
			for _, x := range m.Services() {
				l = append(l, x)
			}
			return
		}, bulk: func(ns []string) (l []interface{}) {
			var xs []*concepts.Service
			for _, n := range ns {
				x := newService(n)
				xs = append(xs, x)
				l = append(l, x)
			}
			m.AddServices(xs)
			return
		}},
		{what: "service", add: func(n string) interface{} {
			if n == "" {
				s.AddVersion(nil)
				return nil
			}
			x := newVersion(n)
			s.AddVersion(x)
			return x
		}, find: func(n *names.Name) interface{} {
			if x := s.FindVersion(n); x != nil {
				return x
			}
			return nil
		}, owned: func(x interface{}) bool { return x.(*concepts.Version).Owner() == s }, all: func() (l []interface{}) {
			for _, x := range s.Versions() {
				l = append(l, x)
			}
			return
		}, bulk: func(ns []string) (l []interface{}) {
			var xs []*concepts.Version
			for _, n := range ns {
				x := newVersion(n)
				xs = append(xs, x)
				l = append(l, x)
			}
			s.AddVersions(xs)
			return
		}},
		{what: "types of version", add: func(n string) interface{} {
			if n == "" {
				v.AddType(nil)
				return nil
			}
			x := newType(n)
			v.AddType(x)
			return x
		}, find: func(n *names.Name) interface{} {
			if x := v.FindType(n); x != nil {
				return x
			}
			return nil
		}, owned: func(x interface{}) bool { return x.(*concepts.Type).Owner() == v }, all: func() (l []interface{}) {
			for _, x := range v.Types() {
				if x.Kind() == concepts.UndefinedType {
					l = append(l, x)
				}
			}
			return
		}, bulk: func(ns []string) (l []interface{}) {
			var xs []*concepts.Type
			for _, n := range ns {
				x := newType(n)
				xs = append(xs, x)
				l = append(l, x)
			}
			v.AddTypes(xs)
			return
		}},
		{what: "resources of version", add: func(n string) interface{} {
			if n == "" {
				v.AddResource(nil)
				return nil
			}
			x := newResource(n)
			v.AddResource(x)
			return x
		}, find: func(n *names.Name) interface{} {
			if x := v.FindResource(n); x != nil {
				return x
			}
			return nil
		}, owned: func(x interface{}) bool { return x.(*concepts.Resource).Owner() == v }, all: func() (l []interface{}) {
			for _, x := range v.Resources() {
				l = append(l, x)
			}
			return
		}, bulk: func(ns []string) (l []interface{}) {
			var xs []*concepts.Resource
			for _, n := range ns {
				x := newResource(n)
				xs = append(xs, x)
				l = append(l, x)
			}
			v.AddResources(xs)
			return
		}},
		{what: "errors of version", add: func(n string) interface{} {
			if n == "" {
				v.AddError(nil)
				return nil
			}
			x := newError(n)
			v.AddError(x)
			return x
		}, find: func(n *names.Name) interface{} {
			if x := v.FindError(n); x != nil {
				return x
			}
			return nil
		}, owned: func(x interface{}) bool { return x.(*concepts.Error).Owner() == v }, all: func() (l []interface{}) {
			for _, x := range v.Errors() {
				l = append(l, x)
			}
			return
		}, bulk: func(ns []string) (l []interface{}) {
			var xs []*concepts.Error
			for _, n := range ns {
				x := newError(n)
				xs = append(xs, x)
				l = append(l, x)
			}
			v.AddErrors(xs)
			return
		}},
		{what: "methods of resource", multi: true, add: func(n string) interface{} {
			if n == "" {
				r.AddMethod(nil)
				return nil
			}
			x := concepts.NewMethod()
			x.SetName(parse(n))
			r.AddMethod(x)
			return x
		}, find: func(n *names.Name) interface{} {
			if x := r.FindMethod(n); x != nil {
				return x
			}
			return nil
		}, owned: func(x interface{}) bool { return x.(*concepts.Method).Owner() == r }, all: func() (l []interface{}) {
			for _, x := range r.Methods() {
				l = append(l, x)
			}
			return
		}},
		{what: "locators of resource", multi: true, add: func(n string) interface{} {
			if n == "" {
				r.AddLocator(nil)
				return nil
			}
			x := concepts.NewLocator()
			x.SetName(parse(n))
			r.AddLocator(x)
			return x
		}, owned: func(x interface{}) bool { return x.(*concepts.Locator).Owner() == r }, all: func() (l []interface{}) {
			for _, x := range r.Locators() {
				l = append(l, x)
			}
			return
		}},
		{what: "attributes of type", multi: true, add: func(n string) interface{} {
			if n == "" {
				t.AddAttribute(nil)
				return nil
			}
			x := concepts.NewAttribute()
			x.SetName(parse(n))
			t.AddAttribute(x)
			return x
		}, find: func(n *names.Name) interface{} {
			if x := t.FindAttribute(n); x != nil {
				return x
			}
			return nil
		}, owned: func(x interface{}) bool { return x.(*concepts.Attribute).Owner() == t }, all: func() (l []interface{}) {
			for _, x := range t.Attributes() {
				l = append(l, x)
			}
			return
		}, bulk: func(ns []string) (l []interface{}) {
			var xs concepts.AttributeSlice
			for _, n := range ns {
				x := concepts.NewAttribute()
				x.SetName(parse(n))
				xs = append(xs, x)
				l = append(l, x)
			}
			t.AddAttributes(xs)
			return
		}},
		{what: "values of type", multi: true, add: func(n string) interface{} {
			if n == "" {
				t.AddValue(nil)
				return nil
			}
			x := concepts.NewEnumValue()
			x.SetName(parse(n))
			t.AddValue(x)
			return x
		}, owned: func(x interface{}) bool { return x.(*concepts.EnumValue).Type() == t }, all: func() (l []interface{}) {
			for _, x := range t.Values() {
				l = append(l, x)
			}
			return
		}},
		{what: "parameters of method", multi: true, add: func(n string) interface{} {
			if n == "" {
				meth.AddParameter(nil)
				return nil
			}
			x := concepts.NewParameter()
			x.SetName(parse(n))
			meth.AddParameter(x)
			return x
		}, find: func(n *names.Name) interface{} {
			if x := meth.GetParameter(n); x != nil {
				return x
			}
			return nil
		}, owned: func(x interface{}) bool { return x.(*concepts.Parameter).Owner() == meth }, all: func() (l []interface{}) {
			for _, x := range meth.Parameters() {
				l = append(l, x)
			}
			return
		}},
	}
}

func run(h *H) {
	n := h.N(300, 20000)
	h.Bound("%d histories of up to 80 additions for each of the 10 kinds of container", n)
	for k := 0; k < n; k++ {
		for _, c := range containers() {
			in := c.what + ":"
			var steps []string
			size := 1 + h.Rand.Intn(12)
			if h.Rand.Intn(8) == 0 {
				size = 20 + h.Rand.Intn(60)
			}
			for i := 0; i < size; i++ {
				t := pool[h.Rand.Intn(len(pool))]
				if h.Rand.Intn(8) == 0 {
					t = ""
				}
				steps = append(steps, t)
			}
			in += fmt.Sprintf("%q", steps)
			h.Case(in, func() {
				held := map[string]map[interface{}]bool{}
				total := 0
				record := func(t string, x interface{}) {
					if c.multi {
						if held[t] == nil {
							held[t] = map[interface{}]bool{}
						}
						held[t][x] = true
					} else {
						held[t] = map[interface{}]bool{x: true}
					}
				}
				if c.bulk != nil && h.Rand.Intn(3) == 0 {
					var l []string
					for _, t := range steps {
						if t != "" {
							l = append(l, t)
						}
					}
					for i, x := range c.bulk(l) {
						record(l[i], x)
						h.True("owner is set: "+c.what, c.owned(x), "%v", x)
					}
				} else {
					for _, t := range steps {
						x := c.add(t)
						if t != "" {
							record(t, x)
							h.True("owner is set: "+c.what, c.owned(x), "%v", x)
						}
					}
				}
				for _, s := range held {
					total += len(s)
				}
				all := c.all()
				count := map[interface{}]int{}
				for _, x := range all {
					count[x]++
				}
				ok := len(all) == total
				for _, s := range held {
					for x := range s {
						ok = ok && count[x] == 1
					}
				}
				h.True("the content is what was added: "+c.what, ok, "%d listed, %d expected", len(all), total)
				if c.find != nil {
					for _, t := range pool {
						got := c.find(parse(t))
						if held[t] == nil {
							h.True("nothing is found with other names: "+c.what, got == nil, "%s", t)
						} else {
							h.True("what was added is found by name: "+c.what, got != nil && held[t][got], "%s %v", t, got)
						}
					}
					h.True("nothing is found without name: "+c.what, c.find(nil) == nil, "")
				}
			})
		}
		h.Case("locators "+fmt.Sprint(k), func() {
			r := concepts.NewResource()
			var constant, variable []*concepts.Locator
			for i, size := 0, h.Rand.Intn(12); i < size; i++ {
				l := concepts.NewLocator()
				l.SetName(parse(pool[h.Rand.Intn(len(pool))]))
				v := h.Rand.Intn(3) == 0
				l.SetVariable(v)
				if v {
					variable = append(variable, l)
				} else {
					constant = append(constant, l)
				}
				r.AddLocator(l)
			}
			got := map[*concepts.Locator]bool{}
			for _, l := range r.ConstantLocators() {
				got[l] = true
			}
			ok := len(got) == len(constant) && len(r.ConstantLocators()) == len(constant)
			for _, l := range constant {
				ok = ok && got[l]
			}
			h.True("constant locators", ok, "%d", len(got))
			v := r.VariableLocator()
			found := v == nil && len(variable) == 0
			for _, l := range variable {
				found = found || l == v
			}
			h.True("variable locator", found, "%v", v)
			ver := concepts.NewVersion()
			r.SetName(parse(pool[h.Rand.Intn(len(pool))]))
			h.Equal("a resource without version isn't the root", r.IsRoot(), false)
			ver.AddResource(r)
			h.Equal("the root is the resource named root", r.IsRoot(), r.Name().String() == "root")
			h.Equal("the root is the resource named root", ver.Root() == r, r.Name().String() == "root")
		})
	}
	setters(h)
}

func setters(h *H) {
	h.Case("setters", func() {
		for _, v := range []bool{true, false, true} {
			l := concepts.NewLocator()
			l.SetVariable(!v)
			l.SetVariable(v)
			h.Equal("flags: variable", l.Variable(), v)
			p := concepts.NewParameter()
			p.SetIn(!v)
			p.SetOut(v)
			h.Equal("flags: in", p.In(), !v)
			h.Equal("flags: out", p.Out(), v)
			p.SetIn(v)
			h.Equal("flags: in", p.In(), v)
			h.Equal("flags: out", p.Out(), v)
			a := concepts.NewAttribute()
			a.SetLink(!v)
			a.SetLink(v)
			h.Equal("flags: link", a.Link(), v)
			t := concepts.NewType()
			t.SetExplicitDeclared(v)
			h.Equal("flags: explicit", t.ExplicitDeclared(), v)
		}
		r := concepts.NewResource()
		l := concepts.NewLocator()
		l.SetTarget(r)
		h.True("target", l.Target() == r, "")
		e := concepts.NewError()
		e.SetCode(42)
		h.Equal("code", e.Code(), 42)
		p := concepts.NewParameter()
		for _, d := range []interface{}{1, "x", true, nil} {
			p.SetDefault(d)
			h.Equal("default", p.Default(), d)
		}
		a, b := concepts.NewType(), concepts.NewType()
		a.SetElement(b)
		a.SetIndex(a)
		h.True("element and index", a.Element() == b && a.Index() == a, "")
		x := concepts.NewAttribute()
		x.SetType(b)
		v := concepts.NewVersion()
		x.SetLinkOwner(v)
		h.True("type", x.Type() == b && x.LinkOwner() == v, "")
		x.SetDoc("doc")
		h.Equal("doc", x.Doc(), "doc")
	})
}
