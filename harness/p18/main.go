// Harness of the OpenAPI specifications.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"github.com/openshift-online/ocm-api-metamodel/pkg/concepts"
	"github.com/openshift-online/ocm-api-metamodel/pkg/generators/golang"
	"github.com/openshift-online/ocm-api-metamodel/pkg/generators/openapi"
	"github.com/openshift-online/ocm-api-metamodel/pkg/http"
	"github.com/openshift-online/ocm-api-metamodel/pkg/reporter"
	"verifharness/gen"
	. "verifharness/h"
	"verifharness/model"
)

func main() { Main(run) }

// ---- JSON documents that keep the repeated names ----

type obj struct {
	names  []string
	values map[string]interface{}
}

func parse(data []byte) (x interface{}, err error) {
	d := json.NewDecoder(bytes.NewReader(data))
	d.UseNumber()
	x, err = value(d, "")
	if err == nil && d.More() {
		err = fmt.Errorf("there is something after the document")
	}
	return
}

func value(d *json.Decoder, path string) (interface{}, error) {
	t, err := d.Token()
	if err != nil {
		return nil, err
	}
	switch t {
	case json.Delim('{'):
		o := &obj{values: map[string]interface{}{}}
		for d.More() {
			k, err := d.Token()
			if err != nil {
				return nil, err
			}
			name := k.(string)
			if _, ok := o.values[name]; ok {
				return nil, fmt.Errorf("the field %s/%s is repeated", path, name)
			}
			v, err := value(d, path+"/"+name)
			if err != nil {
				return nil, err
			}
			o.names = append(o.names, name)
			o.values[name] = v
		}
		_, err = d.Token()
		return o, err
	case json.Delim('['):
		l := []interface{}{}
		for d.More() {
			v, err := value(d, fmt.Sprintf("%s[%d]", path, len(l)))
			if err != nil {
				return nil, err
			}
			l = append(l, v)
		}
		_, err = d.Token()
		return l, err
	}
	return t, nil
}

// show writes the document in a canonical form, one line per value.
func show(path string, x interface{}, out *[]string) {
	switch t := x.(type) {
	case *obj:
		*out = append(*out, path+" object")
		l := append([]string{}, t.names...)
		sort.Strings(l)
		for _, k := range l {
			show(path+"/"+k, t.values[k], out)
		}
	case M:
		*out = append(*out, path+" object")
		var l []string
		for k := range t {
			l = append(l, k)
		}
		sort.Strings(l)
		for _, k := range l {
			show(path+"/"+k, t[k], out)
		}
	case []interface{}:
		*out = append(*out, fmt.Sprintf("%s array %d", path, len(t)))
		for i, v := range t {
			show(fmt.Sprintf("%s[%d]", path, i), v, out)
		}
	default:
		*out = append(*out, fmt.Sprintf("%s %T %v", path, x, x))
	}
}

// ---- oracle ----

type M map[string]interface{}

func or(l ...string) string {
	for _, s := range l {
		if s != "" {
			return s
		}
	}
	return ""
}

func describe(o M, d []string) M {
	if t := strings.Join(d, "\n"); t != "" {
		o["description"] = t
	}
	return o
}

func schema(v *model.Version, r model.Ref, o M) M {
	switch r.Kind {
	case "list":
		o["type"] = "array"
		o["items"] = schema(v, model.Ref{Kind: "plain", Element: r.Element}, M{})
		return o
	case "map":
		o["type"] = "object"
		o["additionalProperties"] = schema(v, model.Ref{Kind: "plain", Element: r.Element}, M{})
		return o
	}
	plain := func(t, f string) M {
		o["type"] = t
		if f != "" {
			o["format"] = f
		}
		return o
	}
	switch r.Element.String() {
	case "boolean":
		return plain("boolean", "")
	case "integer":
		return plain("integer", "int32")
	case "long":
		return plain("integer", "int64")
	case "float":
		return plain("number", "float")
	case "string":
		return plain("string", "")
	case "date":
		return plain("string", "date-time")
	case "interface":
		return plain("object", "")
	}
	o["$ref"] = "#/components/schemas/" + r.Element.Camel()
	return o
}

func text(t string) M { return describe(M{"type": "string"}, []string{t}) }

func bodies(v *model.Version, m *model.Method, l []*model.Param, action bool) M {
	s := M{}
	if len(l) > 1 || action {
		ps := M{}
		for _, p := range l {
			ps[or(p.Ann("json", "name"), p.Name.Snake())] = describe(schema(v, p.Ref, M{}), p.Doc)
		}
		s["type"] = "object"
		s["properties"] = ps
	} else {
		schema(v, l[0].Ref, s)
	}
	return M{"application/json": M{"schema": s}}
}

var verbs = map[string]string{"add": "post", "delete": "delete", "async_delete": "delete", "get": "get", "list": "get", "post": "post",
	"search": "post", "update": "patch", "async_update": "patch"}
var statuses = map[string]string{"add": "201", "post": "201", "delete": "204", "async_delete": "202", "async_update": "202"}

func verb(m *model.Method) string { return or(verbs[m.Name.String()], "post") }

func sorted(l []*model.Param) []*model.Param {
	l = append([]*model.Param{}, l...)
	sort.Slice(l, func(i, j int) bool { return model.Less(l[i].Name, l[j].Name) })
	return l
}

func failure() M {
	return M{"description": "Error.", "content": M{"application/json": M{"schema": M{"$ref": "#/components/schemas/Error"}}}}
}

func operation(v *model.Version, path []*model.Locator, m *model.Method) M {
	o := describe(M{}, m.Doc)
	action := verbs[m.Name.String()] == ""
	params := []interface{}{}
	for _, l := range path {
		if l.Variable {
			params = append(params, M{"name": segment(l) + "_id", "in": "path", "schema": M{"type": "string"}, "required": true})
		}
	}
	var body, out []*model.Param
	for _, p := range sorted(m.Params) {
		if p.In {
			if !action && model.Scalar(v.Kind(p.Ref)) {
				params = append(params, describe(M{"name": or(p.Ann("http", "name"), p.Ann("json", "name"), p.Name.Snake()), "in": "query",
					"schema": schema(v, p.Ref, M{})}, p.Doc))
			} else {
				body = append(body, p)
			}
		}
		if p.Out {
			out = append(out, p)
		}
	}
	if len(params) > 0 {
		o["parameters"] = params
	}
	if len(body) > 0 {
		o["requestBody"] = M{"content": bodies(v, m, body, action)}
	}
	ok := M{"description": "Success."}
	if len(out) > 0 {
		ok["content"] = bodies(v, m, out, action)
	}
	o["responses"] = M{or(statuses[m.Name.String()], "200"): ok, "default": failure()}
	return o
}

func segment(l *model.Locator) string { return or(l.Ann("http", "name"), l.Name.Snake()) }

func paths(v *model.Version, prefix string, path []*model.Locator, r *model.Resource, o M) {
	shared := M{}
	if len(path) == 0 {
		shared["get"] = M{"description": "Retrieves the version metadata.", "responses": M{
			"200":     M{"description": "Success.", "content": M{"application/json": M{"schema": M{"$ref": "#/components/schemas/Metadata"}}}},
			"default": failure(),
		}}
	}
	for _, m := range r.Methods {
		if verbs[m.Name.String()] != "" {
			shared[verb(m)] = operation(v, path, m)
		} else {
			o[prefix+"/"+or(m.Ann("http", "name"), m.Name.Snake())] = M{"post": operation(v, path, m)}
		}
	}
	if len(shared) > 0 {
		o[prefix] = shared
	}
	for _, l := range r.Locators {
		s := segment(l)
		if l.Variable {
			s = "{" + s + "_id}"
		}
		paths(v, prefix+"/"+s, append(append([]*model.Locator{}, path...), l), v.Resource(l.Target), o)
	}
}

func expect(s *model.Service, v *model.Version) M {
	ps := M{}
	paths(v, "/api/"+s.Name.Snake()+"/"+v.Name.Snake(), nil, v.Resource(model.N("root")), ps)
	schemas := M{
		"Metadata": M{"description": "Version metadata.", "properties": M{"server_version": text("Version of the server.")}},
	}
	for _, t := range v.Types {
		o := describe(M{}, t.Doc)
		name := t.Name.Camel()
		if t.Kind == "enum" {
			o["type"] = "string"
			l := []interface{}{}
			values := append([]*model.Value{}, t.Values...)
			sort.Slice(values, func(i, j int) bool { return model.Less(values[i].Name, values[j].Name) })
			for _, x := range values {
				l = append(l, or(x.Ann("json", "name"), x.Name.Snake()))
			}
			o["enum"] = l
		} else {
			attrs := M{}
			if t.Kind == "class" {
				attrs["kind"] = text(fmt.Sprintf("Indicates the type of this object. Will be '%s' if this is a complete object or '%sLink' if it is just a link.", name, name))
				attrs["id"] = text("Unique identifier of the object.")
				attrs["href"] = text("Self link.")
			}
			for _, a := range t.Attrs {
				attrs[or(a.Ann("json", "name"), a.Name.Snake())] = describe(schema(v, a.Ref, M{}), a.Doc)
			}
			o["properties"] = attrs
		}
		schemas[name] = o
	}
	return M{"paths": ps, "components": M{"schemas": schemas}}
}

// Resources with several methods that have the same verb and no segment can't be described by OpenAPI.
func prune(m *model.Model) {
	for _, s := range m.Services {
		for _, v := range s.Versions {
			for _, r := range v.Resources {
				used := map[string]bool{}
				var l []*model.Method
				for _, x := range r.Methods {
					if verbs[x.Name.String()] != "" {
						if used[verb(x)] {
							continue
						}
						used[verb(x)] = true
					}
					l = append(l, x)
				}
				r.Methods = l
			}
		}
	}
}

func check(x error) {
	if x != nil {
		panic(x)
	}
}

func generate(m *concepts.Model, out string, rep *reporter.Reporter) (*openapi.NamesCalculator, *http.BindingCalculator, error) {
	n, err := openapi.NewNamesCalculator().Reporter(rep).Build()
	check(err)
	b, err := http.NewBindingCalculator().Reporter(rep).Build()
	check(err)
	g, err := openapi.NewOpenAPIGenerator().Reporter(rep).Model(m).Output(out).Names(n).Binding(b).Build()
	check(err)
	return n, b, g.Run()
}

func files(dir string) []string {
	var r []string
	_ = filepath.Walk(dir, func(p string, i os.FileInfo, err error) error {
		if err == nil && !i.IsDir() {
			x, _ := filepath.Rel(dir, p)
			r = append(r, x)
		}
		return nil
	})
	return r
}

func diff(got, want interface{}) string {
	var a, b []string
	show("", got, &a)
	show("", want, &b)
	in := func(l []string) map[string]bool {
		r := map[string]bool{}
		for _, s := range l {
			r[s] = true
		}
		return r
	}
	x, y := in(a), in(b)
	var r []string
	for _, s := range a {
		if !y[s] {
			r = append(r, "unexpected: "+s)
		}
	}
	for _, s := range b {
		if !x[s] {
			r = append(r, "missing: "+s)
		}
	}
	if len(r) > 12 {
		r = r[:12]
	}
	return strings.Join(r, "\n")
}

func get(x interface{}, names ...string) interface{} {
	for _, n := range names {
		o, ok := x.(*obj)
		if !ok {
			return nil
		}
		x = o.values[n]
	}
	return x
}

func byteArray(file string) ([]byte, error) {
	f, err := parser.ParseFile(token.NewFileSet(), file, nil, 0)
	if err != nil {
		return nil, err
	}
	var r []byte
	found := false
	ast.Inspect(f, func(n ast.Node) bool {
		s, ok := n.(*ast.ValueSpec)
		if !ok || s.Names[0].Name != "OpenAPI" || len(s.Values) != 1 {
			return true
		}
		c, ok := s.Values[0].(*ast.CompositeLit)
		if !ok {
			return true
		}
		found = true
		for _, e := range c.Elts {
			if l, ok := e.(*ast.BasicLit); ok {
				x, e := strconv.ParseUint(l.Value, 0, 8)
				if e != nil {
					err = e
				}
				r = append(r, byte(x))
			} else {
				err = fmt.Errorf("unexpected element")
			}
		}
		return false
	})
	if err == nil && !found {
		err = fmt.Errorf("no literal found")
	}
	return r, err
}

func one(h *H, m *model.Model, id int) {
	prune(m)
	dir := filepath.Join(h.Scratch, "p18")
	check(model.Clean(dir))
	defer os.RemoveAll(dir)
	in := filepath.Join(dir, "in")
	input, err := (model.Style{Rand: h.Rand}).Write(m, in)
	check(err)
	h.Case(input, func() {
		r := model.Read(in)
		if r.Model == nil {
			h.Fail("valid models are accepted", "%s", r.Errors)
			return
		}
		var stdout, stderr bytes.Buffer
		rep, err := reporter.New().Streams(&stdout, &stderr).Build()
		check(err)
		out := filepath.Join(dir, "out")
		n, b, err := generate(r.Model, out, rep)
		if !h.True("the specification of a valid model is generated", err == nil && rep.Errors() == 0, "error: %v %s", err, stderr.String()) {
			return
		}
		var want []string
		for _, s := range m.Services {
			for _, v := range s.Versions {
				file := filepath.Join(s.Name.Snake(), v.Name.Snake(), "openapi.json")
				want = append(want, file)
				data, err := os.ReadFile(filepath.Join(out, file))
				if !h.True("each version has its file", err == nil, "error: %v", err) {
					continue
				}
				got, err := parse(data)
				if !h.True("the specification is a JSON document without repeated fields", err == nil, "%s: %v", file, err) {
					continue
				}
				o, _ := got.(*obj)
				h.Equal("the specification has the version of OpenAPI", get(got, "openapi"), "3.0.0")
				h.Equal("the specification has the names of the service and version", fmt.Sprint(get(got, "info", "title"), " ", get(got, "info", "version")), s.Name.Snake()+" "+v.Name.Snake())
				e := expect(s, v)
				h.Equal("paths, verbs, parameters, bodies and statuses are those of the binding", diff(get(o, "paths"), e["paths"]), "")
				schemas := get(o, "components", "schemas")
				if x, ok := schemas.(*obj); ok {
					h.True("there is a schema for errors", get(x, "Error", "properties") != nil, "no properties")
					delete(x.values, "Error")
					for i, n := range x.names {
						if n == "Error" {
							x.names = append(x.names[:i:i], x.names[i+1:]...)
							break
						}
					}
				}
				h.Equal("schemas are those of the enumerated types, structs and classes", diff(schemas, e["components"].(M)["schemas"]), "")
				// The paths and schemas are sorted, except those that are always there:
				if ps, ok := schemas.(*obj); ok && len(ps.names) > 0 {
					var have, names []string
					for _, n := range ps.names {
						if n != "Metadata" {
							have = append(have, n)
						}
					}
					types := append([]*model.Type{}, v.Types...)
					sort.Slice(types, func(i, j int) bool { return model.Less(types[i].Name, types[j].Name) })
					for _, t := range types {
						names = append(names, t.Name.Camel())
					}
					h.Equal("schemas are in order", fmt.Sprint(have), fmt.Sprint(names))
				}
			}
		}
		sort.Strings(want)
		h.Equal("there are no other files", fmt.Sprint(files(out)), fmt.Sprint(want))
		// Another model read from a different layout of the same text gives the same bytes:
		other := filepath.Join(dir, "other")
		_, err = (model.Style{Rand: h.Rand}).Write(m, other)
		check(err)
		if r := model.Read(other); r.Model != nil {
			again := filepath.Join(dir, "again")
			_, _, err = generate(r.Model, again, rep)
			h.True("the specification of a valid model is generated", err == nil, "error: %v", err)
			for _, f := range want {
				x, _ := os.ReadFile(filepath.Join(out, f))
				y, _ := os.ReadFile(filepath.Join(again, f))
				h.True("the same model always gives the same bytes", bytes.Equal(x, y), "%s is different", f)
			}
		}
		if id%5 == 0 {
			pk, err := golang.NewPackagesCalculator().Reporter(rep).Base(gen.Base).Build()
			check(err)
			gd := filepath.Join(dir, "go")
			g, err := golang.NewOpenAPIGenerator().Reporter(rep).Model(r.Model).Output(gd).Packages(pk).Names(n).Binding(b).Build()
			check(err)
			err = g.Run()
			if h.True("the Go source with the specification is generated", err == nil && rep.Errors() == 0, "error: %v %s", err, stderr.String()) {
				for _, s := range m.Services {
					for _, v := range s.Versions {
						f := filepath.Join(gd, strings.ToLower(strings.Join(s.Name, "")), strings.ToLower(strings.Join(v.Name, "")), "openapi.go")
						x, err := byteArray(f)
						if !h.True("the Go source has the specification", err == nil, "error: %v", err) {
							continue
						}
						y, _ := os.ReadFile(filepath.Join(out, s.Name.Snake(), v.Name.Snake(), "openapi.json"))
						h.True("the Go source has exactly the bytes of the specification", bytes.Equal(x, y), "%d bytes instead of %d", len(x), len(y))
					}
				}
			}
		}
	})
}

// unrepresentable types are reported, and then nothing is written.
func failures(h *H) {
	dir := filepath.Join(h.Scratch, "p18f")
	check(model.Clean(dir))
	defer os.RemoveAll(dir)
	h.Case("the reporter has errors before generating", func() {
		check(model.Files(filepath.Join(dir, "in"), map[string]string{"s/v1/a.model": "resource Root {\n}\n"}))
		r := model.Read(filepath.Join(dir, "in"))
		if r.Model == nil {
			h.Fail("valid models are accepted", "%s", r.Errors)
			return
		}
		var stdout, stderr bytes.Buffer
		rep, err := reporter.New().Streams(&stdout, &stderr).Build()
		check(err)
		rep.Errorf("something")
		out := filepath.Join(dir, "out")
		_, _, err = generate(r.Model, out, rep)
		h.True("errors stop the generation", err != nil, "no error")
		h.Equal("nothing is written when there are errors", len(files(out)), 0)
	})
}

func run(h *H) {
	one(h, gen.RichClients(), 0)
	for i := 1; i <= h.N(150, 3000); i++ {
		one(h, (&model.Gen{R: h.Rand, Size: 2 + h.Rand.Intn(7)}).Model(), i)
	}
	failures(h)
	h.Bound("one model with methods of all the kinds, and %d random models, each written in two random layouts", h.N(150, 3000))
}
