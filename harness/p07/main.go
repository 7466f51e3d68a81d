// Harness of the HTTP binding.
package main

import (
	"fmt"
	"io"
	"strings"

	"github.com/openshift-online/ocm-api-metamodel/pkg/concepts"
	"github.com/openshift-online/ocm-api-metamodel/pkg/http"
	"github.com/openshift-online/ocm-api-metamodel/pkg/names"
	"github.com/openshift-online/ocm-api-metamodel/pkg/reporter"
	. "verifharness/h"
)

func main() { Main(run) }

// id is a name in both representations.
type id struct{ camel, snake string }

var verbs = map[string][2]string{
	"add": {"POST", "201"}, "delete": {"DELETE", "204"}, "async_delete": {"DELETE", "202"}, "get": {"GET", "200"},
	"list": {"GET", "200"}, "post": {"POST", "201"}, "search": {"POST", "200"}, "update": {"PATCH", "200"}, "async_update": {"PATCH", "202"},
}

func randID(h *H) id {
	pool := []string{"cluster", "id", "aws", "node", "pool", "vm", "xy", "list", "add", "href", "get", "async", "update"}
	n := 1 + h.Rand.Intn(3)
	var r id
	for i := 0; i < n; i++ {
		w := pool[h.Rand.Intn(len(pool))]
		if i > 0 {
			r.snake += "_"
		}
		r.snake += w
		r.camel += strings.ToUpper(w[:1]) + w[1:]
	}
	return r
}

func annotate(h *H, x concepts.Annotated) (text string, values map[string]string) {
	values = map[string]string{}
	for _, n := range []string{"json", "http", "go", "ref"} {
		if h.Rand.Intn(2) == 0 {
			continue
		}
		a := concepts.NewAnnotation()
		a.SetName(n)
		text += "@" + n
		key := "name"
		switch h.Rand.Intn(4) {
		case 0:
			key = "other"
		case 1:
			key = "path"
		}
		v := h.Pick("my_name", "x", "Upper", "a-b", "id", "with space", "ünï", "%s")
		a.AddParameter(key, v)
		text += "(" + key + "=" + v + ") "
		if key == "name" {
			values[n] = v
		}
		x.AddAnnotation(a)
		if h.Rand.Intn(4) == 0 { // a second one is ignored
			b := concepts.NewAnnotation()
			b.SetName(n)
			b.AddParameter("name", "second")
			text += "@" + n + "(name=second) "
			x.AddAnnotation(b)
		}
	}
	return
}

func or(l ...string) string {
	for _, s := range l {
		if s != "" {
			return s
		}
	}
	return ""
}

func run(h *H) {
	rep, err := reporter.New().Streams(io.Discard, io.Discard).Build()
	if err != nil {
		h.Fail("calculator is created", "%v", err)
		return
	}
	c, err := http.NewBindingCalculator().Reporter(rep).Build()
	if err != nil || c == nil {
		h.Fail("calculator is created", "%v", err)
		return
	}
	_, err = http.NewBindingCalculator().Build()
	h.True("the reporter is mandatory", err != nil, "no error")

	var ids []id
	for k := range verbs {
		camel := ""
		for _, w := range strings.Split(k, "_") {
			camel += strings.ToUpper(w[:1]) + w[1:]
		}
		ids = append(ids, id{camel, k})
	}
	for i := 0; i < h.N(400, 30000); i++ {
		ids = append(ids, randID(h))
	}
	for _, n := range ids {
		name := func() *names.Name { return names.ParseUsingCase(n.camel) }
		// Methods:
		m := concepts.NewMethod()
		text, ann := annotate(h, m)
		h.Case("method "+n.camel+" "+text, func() {
			m.SetName(name())
			v, standard := verbs[n.snake]
			if !standard {
				v = [2]string{"POST", "200"}
			}
			h.Equal("verb of a method", c.Method(m), v[0])
			h.Equal("success status of a method", c.DefaultStatus(m), v[1])
			seg := ""
			if !standard {
				seg = or(ann["http"], n.snake)
			}
			h.Equal("segment of a method", c.MethodSegment(m), seg)
		})
		// Parameters:
		for round := 0; round < 3; round++ {
			m := concepts.NewMethod()
			m.SetName(name())
			_, standard := verbs[n.snake]
			var all, query, body, out []string
			desc := "method " + n.camel
			k := h.Rand.Intn(6)
			for i := 0; i < k; i++ {
				p := concepts.NewParameter()
				pn := fmt.Sprintf("p%d", i)
				p.SetName(names.ParseUsingCase(pn))
				t := concepts.NewType()
				kind := concepts.TypeKind(1 + h.Rand.Intn(7))
				t.SetName(names.ParseUsingCase("MyType"))
				t.SetKind(kind)
				p.SetType(t)
				in, o := h.Rand.Intn(2) == 0, h.Rand.Intn(2) == 0
				p.SetIn(in)
				p.SetOut(o)
				m.AddParameter(p)
				desc += fmt.Sprintf(" %s(%v in=%v out=%v)", pn, kind, in, o)
				scalar := kind == concepts.ScalarType || kind == concepts.EnumType || kind == concepts.InterfaceType
				if in {
					all = append(all, pn)
					if standard && scalar {
						query = append(query, pn)
					} else {
						body = append(body, pn)
					}
				}
				if o {
					out = append(out, pn)
				}
			}
			list := func(l []*concepts.Parameter) []string {
				var r []string
				for _, p := range l {
					r = append(r, p.Name().Camel())
				}
				return r
			}
			h.Case(desc, func() {
				low := func(l []string) string { return strings.ToLower(strings.Join(l, " ")) }
				for pass := 0; pass < 2; pass++ { // asking doesn't change the answers
					h.Equal("request parameters", low(list(c.RequestParameters(m))), low(all))
					h.Equal("query parameters", low(list(c.RequestQueryParameters(m))), low(query))
					h.Equal("body parameters", low(list(c.RequestBodyParameters(m))), low(body))
					h.Equal("response parameters", low(list(c.ResponseParameters(m))), low(out))
					h.Equal("response body parameters", low(list(c.ResponseBodyParameters(m))), low(out))
				}
			})
		}
		// Names:
		check := func(what string, x concepts.Annotated, setName func(*names.Name), get func() string, want func(map[string]string) string) {
			text, ann := annotate(h, x)
			h.Case(what+" "+n.camel+" "+text, func() {
				setName(name())
				h.Equal("name of "+what, get(), want(ann))
			})
		}
		json := func(a map[string]string) string { return or(a["json"], n.snake) }
		htt := func(a map[string]string) string { return or(a["http"], n.snake) }
		attr := concepts.NewAttribute()
		check("attribute", attr, attr.SetName, func() string { return c.AttributeName(attr) }, json)
		par := concepts.NewParameter()
		check("query parameter", par, par.SetName, func() string { return c.QueryParameterName(par) },
			func(a map[string]string) string { return or(a["http"], a["json"], n.snake) })
		par2 := concepts.NewParameter()
		check("body parameter", par2, par2.SetName, func() string { return c.BodyParameterName(par2) }, json)
		ev := concepts.NewEnumValue()
		check("enumerated value", ev, ev.SetName, func() string { return c.EnumValueName(ev) }, json)
		svc := concepts.NewService()
		check("service", svc, svc.SetName, func() string { return c.ServiceSegment(svc) }, htt)
		ver := concepts.NewVersion()
		check("version", ver, ver.SetName, func() string { return c.VersionSegment(ver) }, htt)
		loc := concepts.NewLocator()
		check("locator", loc, loc.SetName, func() string { return c.LocatorSegment(loc) }, htt)
	}
	h.Bound("%d names of up to 3 words, up to 5 parameters of random kind and direction, up to 2 annotations of each kind", len(ids))
}
