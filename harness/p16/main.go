// Harness of the calculator of Go types.
package main

import (
	"bytes"
	"fmt"
	"path"
	"strings"

	"github.com/openshift-online/ocm-api-metamodel/pkg/concepts"
	"github.com/openshift-online/ocm-api-metamodel/pkg/generators/golang"
	"github.com/openshift-online/ocm-api-metamodel/pkg/names"
	"github.com/openshift-online/ocm-api-metamodel/pkg/reporter"
	. "verifharness/h"
)

func main() { Main(run) }

var words = []string{"cluster", "node", "AWS", "id", "x", "type", "list", "map", "v1", "time", "interface", "VPC", "range", "string"}

func randName(h *H) []string {
	var r []string
	for n := 1 + h.Rand.Intn(3); n > 0; n-- {
		r = append(r, words[h.Rand.Intn(len(words))])
	}
	return r
}

func initialism(w string) bool { return len(w) > 1 && strings.ToUpper(w) == w && w != "v1" }

func mk(l []string) *names.Name {
	var ws []*names.Word
	for _, w := range l {
		if initialism(w) {
			ws = append(ws, names.NewInitialism(w))
		} else {
			ws = append(ws, names.NewWord(w))
		}
	}
	return names.NewName(ws...)
}

func public(l []string) string {
	r := ""
	for _, w := range l {
		if initialism(w) {
			r += w
		} else {
			r += strings.ToUpper(w[:1]) + w[1:]
		}
	}
	return r
}

// typ is a type, with what is known about it.
type typ struct {
	real *concepts.Type
	kind string // name of the built-in type, or enum, class, struct, list, map
	name []string
	goN  string
	pkg  string // import path of its version
	sel  string
	elem *typ
	text string
}

var scalars = map[string]string{"boolean": "bool", "integer": "int", "long": "int64", "float": "float64", "string": "string", "interface": "interface{}", "date": "time.Time"}

func (t *typ) isStruct() bool { return t.kind == "class" || t.kind == "struct" }

// plain tells if the type isn't a list or a map.
func (t *typ) plain() bool { return t.kind != "list" && t.kind != "map" }

func (t *typ) imprt() (string, string) {
	switch {
	case t.kind == "date":
		return "time", "time"
	case t.isStruct() || t.kind == "enum":
		return t.pkg, t.sel
	}
	return "", ""
}

func (t *typ) value() string {
	switch t.kind {
	case "list":
		return "[]" + t.elem.element()
	case "map":
		return "map[string]" + t.elem.element()
	case "class", "struct", "enum":
		return t.goN
	}
	return scalars[t.kind]
}

func (t *typ) element() string {
	if t.isStruct() {
		return "*" + t.sel + "." + t.goN
	}
	return t.value()
}

func (t *typ) base() *typ {
	if t.plain() {
		return t
	}
	return t.elem
}

func (t *typ) baseName() string {
	b := t.base()
	switch {
	case b.kind == "date":
		return "Time"
	case b.isStruct() || b.kind == "enum":
		return b.goN
	}
	return scalars[b.kind]
}

func run(h *H) {
	h.Bound("%d random versions with types of all the kinds", h.N(150, 3000))
	for n := 0; n < h.N(150, 3000); n++ {
		version(h)
	}
	for _, class := range []bool{false, true} {
		for k := 0; k <= 70; k++ {
			flags(h, class, k)
		}
	}
	h.Bound("classes and structs with 0 to 70 attributes")
}

func calculators(h *H, base string) (*golang.TypesCalculator, *reporter.Reporter) {
	var out, errs bytes.Buffer
	rep, err := reporter.New().Streams(&out, &errs).Build()
	if err != nil {
		return nil, nil
	}
	pkgs, err := golang.NewPackagesCalculator().Reporter(rep).Base(base).Build()
	if err != nil {
		return nil, nil
	}
	nms, err := golang.NewNamesCalculator().Reporter(rep).Build()
	if err != nil {
		return nil, nil
	}
	types, err := golang.NewTypesCalculator().Reporter(rep).Packages(pkgs).Names(nms).Build()
	if err != nil {
		return nil, nil
	}
	return types, rep
}

func version(h *H) {
	base := h.Pick("example.com/api", "github.com/x/y-go", "api")
	sname, vname := randName(h), []string{h.Pick("v1", "v2", "v10")}
	calc, rep := calculators(h, base)
	input := fmt.Sprintf("base=%s service=%v version=%v", base, sname, vname)
	if calc == nil {
		h.Case(input, func() { h.Fail("the calculators can be created", "error") })
		return
	}
	service := concepts.NewService()
	service.SetName(mk(sname))
	v := concepts.NewVersion()
	v.SetName(mk(vname))
	service.AddVersion(v)
	pkg := path.Join(base, strings.ToLower(strings.Join(sname, "")), strings.ToLower(vname[0]))
	var all []*typ
	for _, b := range []struct {
		n string
		t *concepts.Type
	}{{"boolean", v.Boolean()}, {"integer", v.IntegerType()}, {"long", v.LongType()}, {"float", v.FloatType()}, {"string", v.StringType()}, {"date", v.DateType()}, {"interface", v.InterfaceType()}} {
		all = append(all, &typ{real: b.t, kind: b.n, name: []string{b.n}})
	}
	used := map[string]bool{}
	for i := 0; i < 2+h.Rand.Intn(6); i++ {
		t := &typ{kind: h.Pick("enum", "class", "struct"), name: randName(h), pkg: pkg, sel: vname[0]}
		if used[strings.Join(t.name, "_")] || len(t.name) == 1 && scalars[t.name[0]] != "" {
			continue
		}
		used[strings.Join(t.name, "_")] = true
		t.real = concepts.NewType()
		t.real.SetName(mk(t.name))
		t.real.SetKind(map[string]concepts.TypeKind{"enum": concepts.EnumType, "class": concepts.ClassType, "struct": concepts.StructType}[t.kind])
		t.goN = public(t.name)
		if h.Rand.Intn(3) == 0 {
			a := concepts.NewAnnotation()
			a.SetName("go")
			t.goN = h.Pick("Other", "MyType", "X")
			a.AddParameter("name", t.goN)
			t.real.AddAnnotation(a)
		}
		v.AddType(t.real)
		all = append(all, t)
	}
	for _, e := range append([]*typ{}, all...) {
		for _, k := range []string{"list", "map"} {
			t := &typ{kind: k, elem: e, name: append(append([]string{}, e.name...), k)}
			t.real = concepts.NewType()
			t.real.SetName(mk(t.name))
			t.real.SetElement(e.real)
			if k == "list" {
				t.real.SetKind(concepts.ListType)
			} else {
				t.real.SetKind(concepts.MapType)
				t.real.SetIndex(v.StringType())
			}
			v.AddType(t.real)
			all = append(all, t)
		}
	}
	// The values without annotations of escaped names:
	for _, t := range all {
		t := t
		h.Case(fmt.Sprintf("%s type=%s kind=%s go=%s", input, strings.Join(t.name, "_"), t.kind, t.goN), func() { check(h, calc, rep, t) })
	}
	// Types without representation:
	for i := 0; i < 3; i++ {
		e := all[len(all)-1-h.Rand.Intn(2)]
		t := concepts.NewType()
		t.SetName(mk(append(append([]string{}, e.name...), "list")))
		t.SetKind(concepts.ListType)
		t.SetElement(e.real)
		t.SetOwner(v)
		h.Case(fmt.Sprintf("%s list of %s", input, strings.Join(e.name, "_")), func() {
			before := rep.Errors()
			calc.ValueReference(t)
			h.True("types without a Go representation are reported", rep.Errors() > before, "no error for a list of %s", e.kind)
		})
	}
	for _, t := range all {
		t := t
		h.Case(fmt.Sprintf("%s type=%s kind=%s", input, strings.Join(t.name, "_"), t.kind), func() {
			before := rep.Errors()
			if t.kind != "enum" {
				calc.EnumReference(t.real)
				h.Equal("asking for the enumerated type of other types is reported", rep.Errors(), before+1)
			}
			before = rep.Errors()
			if t.kind != "list" {
				calc.ListReference(t.real)
				h.Equal("asking for the list type of other types is reported", rep.Errors(), before+1)
			}
			before = rep.Errors()
			if t.kind != "list" && !t.isStruct() {
				calc.StructReference(t.real)
				h.Equal("asking for the struct of other types is reported", rep.Errors(), before+1)
				before = rep.Errors()
				calc.BuilderReference(t.real, "")
				h.Equal("asking for the builder of other types is reported", rep.Errors(), before+1)
			}
		})
	}
}

func check(h *H, calc *golang.TypesCalculator, rep *reporter.Reporter, t *typ) {
	before := rep.Errors()
	ref := func(clause string, r *golang.TypeReference, text, name string, b *typ) {
		imprt, sel := b.imprt()
		h.Equal(clause+": text", r.Text(), text)
		h.Equal(clause+": name", r.Name(), name)
		h.Equal(clause+": import path", r.Import(), imprt)
		h.Equal(clause+": selector", r.Selector(), sel)
	}
	ref("values", calc.ValueReference(t.real), t.value(), t.baseName(), t.base())
	for _, version := range []string{"", "other"} {
		want := t.value()
		switch {
		case t.isStruct():
			want = "*" + t.sel + "." + t.goN
			if version != "" {
				want = "*other." + t.goN
			}
		case t.plain() && t.kind != "interface":
			want = "*" + want
		}
		ref("nullable values", calc.NullableReference(t.real, version), want, t.baseName(), t.base())
	}
	zero := map[string]string{"boolean": "false", "integer": "0", "long": "0", "float": "0.0", "string": `""`, "date": "time.Time{}", "enum": t.goN + `("")`}[t.kind]
	if zero == "" {
		zero = "nil"
	}
	h.Equal("zero values", calc.ZeroValue(t.real), zero)
	switch {
	case t.kind == "enum":
		h.Equal("enumerated types", calc.EnumName(t.real), t.goN)
		ref("enumerated types", calc.EnumReference(t.real), t.goN, t.goN, t)
	case t.isStruct():
		h.Equal("structs", calc.StructName(t.real), t.goN)
		ref("structs", calc.StructReference(t.real), t.goN, t.goN, t)
		ref("builders", calc.BuilderReference(t.real, ""), "*"+t.sel+"."+t.goN+"Builder", t.goN+"Builder", t)
		ref("builders", calc.BuilderReference(t.real, "other"), "*other."+t.goN+"Builder", t.goN+"Builder", t)
	case t.kind == "list" && (t.elem.isStruct() || t.elem.kind == "enum"):
		e := t.elem
		h.Equal("lists", calc.ListName(t.real), e.goN+"List")
		ref("lists", calc.ListReference(t.real), "*"+e.sel+"."+e.goN+"List", e.goN+"List", e)
		ref("builders of lists", calc.BuilderReference(t.real, ""), "*"+e.sel+"."+e.goN+"ListBuilder", e.goN+"ListBuilder", e)
		ref("builders of lists", calc.BuilderReference(t.real, "other"), "*other."+e.goN+"ListBuilder", e.goN+"ListBuilder", e)
		ref("structs of lists", calc.StructReference(t.real), e.goN+"List", e.goN+"List", e)
	}
	imprt, sel := t.imprt()
	if t.plain() {
		a, b := calc.Package(t.real)
		h.Equal("packages", a, imprt)
		h.Equal("packages: selectors", b, sel)
	}
	h.Equal("nothing is reported", rep.Errors(), before)
}

func flags(h *H, class bool, k int) {
	calc, rep := calculators(h, "example.com/api")
	service := concepts.NewService()
	service.SetName(mk([]string{"my"}))
	v := concepts.NewVersion()
	v.SetName(mk([]string{"v1"}))
	service.AddVersion(v)
	t := concepts.NewType()
	t.SetName(mk([]string{"wide"}))
	kind, first := concepts.StructType, 0
	if class {
		kind, first = concepts.ClassType, 3
	}
	t.SetKind(kind)
	v.AddType(t)
	var attrs []*concepts.Attribute
	for i := 0; i < k; i++ {
		a := concepts.NewAttribute()
		a.SetName(mk([]string{"a", fmt.Sprintf("n%02d", (i*7)%100)}))
		a.SetType(v.StringType())
		t.AddAttribute(a)
		attrs = append(attrs, a)
	}
	h.Case(fmt.Sprintf("class=%v attributes=%d", class, k), func() {
		total := k + first
		r := calc.BitmapType(t)
		if total > 64 {
			h.True("types with too many attributes are reported", rep.Errors() == 1, "%d errors", rep.Errors())
			return
		}
		want := "uint32"
		if total > 32 {
			want = "uint64"
		}
		h.Equal("the type of the flags has room for them", r.Text(), want)
		h.Equal("the type of the flags has room for them", r.Name(), want)
		h.Equal("types with a valid number of attributes aren't reported", rep.Errors(), 0)
		seen := map[string]bool{}
		for i := 0; i < first; i++ {
			seen[fmt.Sprint(uint64(1)<<i)] = true
		}
		for i, a := range attrs {
			m := calc.BitMask(a)
			h.True("the flags of the attributes are different", !seen[m], "attribute %d has the mask %s, that is used", i, m)
			seen[m] = true
			var x uint64
			_, err := fmt.Sscanf(m, "%d", &x)
			bits := 32
			if want == "uint64" {
				bits = 64
			}
			h.True("each flag is one bit of the type", err == nil && x != 0 && x&(x-1) == 0 && fmt.Sprint(x) == m && (bits == 64 || x < 1<<32), "mask %s of attribute %d of %d", m, i, k)
		}
	})
}
