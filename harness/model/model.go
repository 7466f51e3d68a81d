// Package model is an independent description of a model: it is what the harnesses know about a
// model, without using the code under test. It can be written to model files, in any order and
// distribution, and it says what the result of reading those files should be.
package model

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

// ID is a name: a sequence of words. A word in upper case is an initialism.
type ID []string

// N parses a name written with underscores, like 'my_AWS_cluster'.
func N(text string) ID { return ID(strings.Split(text, "_")) }

func initialism(w string) bool { return len(w) > 1 && strings.ToUpper(w) == w }

// Camel returns the camel form.
func (n ID) Camel() string {
	r := ""
	for _, w := range n {
		if initialism(w) {
			r += w
		} else {
			r += strings.ToUpper(w[:1]) + w[1:]
		}
	}
	return r
}

// LowerCamel returns the lower camel form, used for private identifiers: the first word in lower
// case.
func (n ID) LowerCamel() string {
	r := strings.ToLower(n[0])
	for _, w := range n[1:] {
		if initialism(w) {
			r += w
		} else {
			r += strings.ToUpper(w[:1]) + w[1:]
		}
	}
	return r
}

// Snake returns the snake form.
func (n ID) Snake() string { return strings.ToLower(strings.Join(n, "_")) }

// String returns the words joined by underscores, which is the key of the concepts.
func (n ID) String() string { return strings.Join(n, "_") }

// Cat concatenates names.
func Cat(l ...ID) ID {
	var r ID
	for _, n := range l {
		r = append(r, n...)
	}
	return r
}

// Less compares names word by word.
func Less(a, b ID) bool {
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i] != b[i] {
			return a[i] < b[i]
		}
	}
	return len(a) < len(b)
}

// Ann is an annotation.
type Ann struct {
	Name   string
	Params []AnnParam
}

// AnnParam is a parameter of an annotation: the value is a string, a boolean or an integer.
type AnnParam struct {
	Name  string
	Value interface{}
}

// Decl is what all the declarations have.
type Decl struct {
	Name ID
	Doc  []string
	Anns []Ann
}

// Ann returns the value of the parameter of the first annotation with the given name.
func (d *Decl) Ann(name, param string) string {
	for _, a := range d.Anns {
		if a.Name == name {
			for _, p := range a.Params {
				if p.Name == param {
					return fmt.Sprintf("%s", p.Value)
				}
			}
			return ""
		}
	}
	return ""
}

// Ref is a reference to a type.
type Ref struct {
	Kind    string // plain, list or map
	Index   ID
	Element ID
}

// Name returns the name of the referenced type.
func (r Ref) Name() ID {
	switch r.Kind {
	case "list":
		return Cat(r.Element, ID{"list"})
	case "map":
		return Cat(r.Index, r.Element, ID{"map"})
	}
	return r.Element
}

// Plain is a reference to a plain type.
func Plain(n string) Ref { return Ref{Kind: "plain", Element: N(n)} }

// List is a reference to a list.
func List(n string) Ref { return Ref{Kind: "list", Element: N(n)} }

// Map is a reference to a map.
func Map(i, n string) Ref { return Ref{Kind: "map", Index: N(i), Element: N(n)} }

// Type is the declaration of a type.
type Type struct {
	Decl
	Kind   string // enum, class or struct
	Attrs  []*Attr
	Values []*Value
}

// Attr is an attribute.
type Attr struct {
	Decl
	Ref  Ref
	Link bool
}

// Value is a value of an enumerated type.
type Value struct{ Decl }

// Resource is a resource.
type Resource struct {
	Decl
	Methods  []*Method
	Locators []*Locator
}

// Method is a method.
type Method struct {
	Decl
	Params []*Param
}

// Param is a parameter.
type Param struct {
	Decl
	Ref     Ref
	In, Out bool
	Default interface{}
}

// Locator is a locator.
type Locator struct {
	Decl
	Target   ID
	Variable bool
}

// Error is an error.
type Error struct {
	Decl
	Code int
}

// Version is a version.
type Version struct {
	Name      ID
	Types     []*Type
	Resources []*Resource
	Errors    []*Error
}

// Service is a service.
type Service struct {
	Name     ID
	Versions []*Version
}

// Model is a model.
type Model struct{ Services []*Service }

// Builtins are the built-in types.
var Builtins = []string{"boolean", "integer", "long", "float", "string", "date", "interface"}

// Kind returns the kind of the given reference.
func (v *Version) Kind(r Ref) string {
	if r.Kind != "plain" {
		return r.Kind
	}
	for _, b := range Builtins {
		if r.Element.String() == b {
			if b == "interface" {
				return "interface"
			}
			return "scalar"
		}
	}
	for _, t := range v.Types {
		if t.Name.String() == r.Element.String() {
			return t.Kind
		}
	}
	return "undefined"
}

// Scalar tells if the kind is scalar.
func Scalar(kind string) bool { return kind == "scalar" || kind == "enum" || kind == "interface" }

// Struct tells if the kind is an struct.
func Struct(kind string) bool { return kind == "class" || kind == "struct" }

// Find finds a type.
func (v *Version) Find(n ID) *Type {
	for _, t := range v.Types {
		if t.Name.String() == n.String() {
			return t
		}
	}
	return nil
}

// Resource finds a resource.
func (v *Version) Resource(n ID) *Resource {
	for _, r := range v.Resources {
		if r.Name.String() == n.String() {
			return r
		}
	}
	return nil
}

// ---- writing ----

// Style tells how to write a model. A nil random generator writes everything in order, in one file.
type Style struct {
	Rand *rand.Rand
}

func (s Style) n(k int) int {
	if s.Rand == nil {
		return 0
	}
	return s.Rand.Intn(k)
}

func (s Style) perm(k int) []int {
	if s.Rand == nil {
		r := make([]int, k)
		for i := range r {
			r[i] = i
		}
		return r
	}
	return s.Rand.Perm(k)
}

func (s Style) ident(n ID) string { return n.Camel() }

func literal(x interface{}) string {
	switch x := x.(type) {
	case string:
		if strings.Contains(x, "\"") {
			return "`" + x + "`"
		}
		return fmt.Sprintf("%q", x)
	default:
		return fmt.Sprint(x)
	}
}

func (s Style) head(b *strings.Builder, indent string, d *Decl) {
	// something that separates from previous comments:
	switch s.n(4) {
	case 1:
		b.WriteString("\n")
	case 2:
		fmt.Fprintf(b, "%s// not documentation\n\n", indent)
	case 3:
		fmt.Fprintf(b, "%s/* block */\n", indent)
	}
	for _, l := range d.Doc {
		if l == "" {
			fmt.Fprintf(b, "%s//\n", indent)
		} else {
			fmt.Fprintf(b, "%s// %s\n", indent, l)
		}
	}
	for _, a := range d.Anns {
		fmt.Fprintf(b, "%s@%s", indent, a.Name)
		if len(a.Params) > 0 {
			var l []string
			for _, p := range a.Params {
				l = append(l, fmt.Sprintf("%s = %s", p.Name, literal(p.Value)))
			}
			fmt.Fprintf(b, "(%s)", strings.Join(l, " "))
		} else if s.n(2) == 1 {
			b.WriteString("()")
		}
		b.WriteString("\n")
	}
}

func ref(r Ref) string {
	switch r.Kind {
	case "list":
		return "[]" + r.Element.Camel()
	case "map":
		return "[" + r.Index.Camel() + "]" + r.Element.Camel()
	}
	return r.Element.Camel()
}

// TypeText writes a type.
func (s Style) TypeText(t *Type) string {
	b := &strings.Builder{}
	s.head(b, "", &t.Decl)
	fmt.Fprintf(b, "%s %s {\n", t.Kind, s.ident(t.Name))
	for _, i := range s.perm(len(t.Values)) {
		v := t.Values[i]
		s.head(b, "\t", &v.Decl)
		if s.n(2) == 1 {
			b.WriteString("\tvalue")
		}
		fmt.Fprintf(b, "\t%s\n", s.ident(v.Name))
	}
	for _, i := range s.perm(len(t.Attrs)) {
		a := t.Attrs[i]
		s.head(b, "\t", &a.Decl)
		b.WriteString("\t")
		if a.Link {
			b.WriteString("link ")
		} else if s.n(2) == 1 {
			b.WriteString("attribute ")
		}
		fmt.Fprintf(b, "%s %s\n", s.ident(a.Name), ref(a.Ref))
	}
	b.WriteString("}\n")
	return b.String()
}

// ErrorText writes an error.
func (s Style) ErrorText(e *Error) string {
	b := &strings.Builder{}
	s.head(b, "", &e.Decl)
	fmt.Fprintf(b, "error %s {\n\tcode %d\n}\n", s.ident(e.Name), e.Code)
	return b.String()
}

// MethodText writes a method.
func (s Style) MethodText(m *Method) string {
	b := &strings.Builder{}
	s.head(b, "\t", &m.Decl)
	b.WriteString("\t")
	if s.n(3) != 1 {
		b.WriteString("method ")
	}
	fmt.Fprintf(b, "%s {\n", s.ident(m.Name))
	for _, i := range s.perm(len(m.Params)) {
		p := m.Params[i]
		s.head(b, "\t\t", &p.Decl)
		b.WriteString("\t\t")
		if s.n(2) == 1 {
			b.WriteString("parameter ")
		}
		switch {
		case p.In && p.Out:
			if s.n(2) == 1 {
				b.WriteString("out in ")
			} else {
				b.WriteString("in out ")
			}
		case p.In:
			b.WriteString("in ")
		case p.Out:
			if s.n(2) == 0 {
				b.WriteString("out ")
			}
		}
		fmt.Fprintf(b, "%s %s", s.ident(p.Name), ref(p.Ref))
		if p.Default != nil {
			fmt.Fprintf(b, " = %s", literal(p.Default))
		}
		b.WriteString("\n")
	}
	b.WriteString("\t}\n")
	return b.String()
}

// ResourceText writes a resource.
func (s Style) ResourceText(r *Resource) string {
	b := &strings.Builder{}
	s.head(b, "", &r.Decl)
	fmt.Fprintf(b, "resource %s {\n", s.ident(r.Name))
	for _, i := range s.perm(len(r.Methods) + len(r.Locators)) {
		if i < len(r.Methods) {
			b.WriteString(s.MethodText(r.Methods[i]))
			continue
		}
		l := r.Locators[i-len(r.Methods)]
		s.head(b, "\t", &l.Decl)
		fmt.Fprintf(b, "\tlocator %s {\n", s.ident(l.Name))
		target := fmt.Sprintf("\t\ttarget %s\n", l.Target.Camel())
		variable := ""
		if l.Variable {
			variable = "\t\tvariable ID\n"
		}
		if s.n(2) == 1 {
			b.WriteString(variable + target)
		} else {
			b.WriteString(target + variable)
		}
		b.WriteString("\t}\n")
	}
	b.WriteString("}\n")
	return b.String()
}

// Texts returns the declarations of the version.
func (s Style) Texts(v *Version) []string {
	var l []string
	for _, t := range v.Types {
		l = append(l, s.TypeText(t))
	}
	for _, r := range v.Resources {
		l = append(l, s.ResourceText(r))
	}
	for _, e := range v.Errors {
		l = append(l, s.ErrorText(e))
	}
	return l
}

// Write writes the model to the given directory, and returns the text of all the files.
func (s Style) Write(m *Model, dir string) (string, error) {
	all := ""
	for _, svc := range m.Services {
		for _, v := range svc.Versions {
			d := filepath.Join(dir, svc.Name.String(), v.Name.String())
			if err := os.MkdirAll(d, 0755); err != nil {
				return "", err
			}
			texts := s.Texts(v)
			n := 1 + s.n(4)
			files := make([]string, n)
			for _, i := range s.perm(len(texts)) {
				k := s.n(n)
				files[k] += texts[i]
				if s.n(2) == 0 {
					files[k] += "\n"
				}
			}
			for k, text := range files {
				name := fmt.Sprintf("f%d.model", k)
				if err := os.WriteFile(filepath.Join(d, name), []byte(text), 0644); err != nil {
					return "", err
				}
				all += fmt.Sprintf("==> %s/%s/%s\n%s", svc.Name, v.Name, name, text)
			}
		}
	}
	return all, nil
}

// ---- expectation ----

func annText(l []Ann) string {
	r := ""
	for _, a := range l {
		r += " @" + a.Name
		ps := map[string]interface{}{}
		for _, p := range a.Params {
			ps[p.Name] = p.Value
		}
		r += paramText(ps)
	}
	return r
}

// AnnNames are all the parameters of annotations that are used.
var AnnNames = []string{"name", "path", "flag", "count"}

func paramText(ps map[string]interface{}) string {
	r := "("
	for _, k := range AnnNames {
		if v, ok := ps[k]; ok && v != nil {
			r += fmt.Sprintf(" %s=%T:%v", k, v, v)
		}
	}
	return r + ")"
}

func line(b *strings.Builder, indent int, what string, d *Decl, extra string) {
	fmt.Fprintf(b, "%s%s %s doc=%q%s%s\n", strings.Repeat("  ", indent), what, d.Name, strings.Join(d.Doc, "\n"), annText(d.Anns), extra)
}

// Expect returns the text that Dump should return for the model that results from reading this.
func Expect(m *Model) string {
	b := &strings.Builder{}
	services := append([]*Service{}, m.Services...)
	sort.Slice(services, func(i, j int) bool { return Less(services[i].Name, services[j].Name) })
	for _, s := range services {
		fmt.Fprintf(b, "service %s\n", s.Name)
		versions := append([]*Version{}, s.Versions...)
		sort.Slice(versions, func(i, j int) bool { return Less(versions[i].Name, versions[j].Name) })
		for _, v := range versions {
			expectVersion(b, v)
		}
	}
	return b.String()
}

// implied returns the types of the version: those declared, the built-in ones, the lists and maps
// that are used, and the list of every type.
func (v *Version) implied() map[string]*typeInfo {
	all := map[string]*typeInfo{}
	add := func(t *typeInfo) {
		if _, ok := all[t.name.String()]; !ok {
			all[t.name.String()] = t
		}
	}
	for _, t := range v.Types {
		add(&typeInfo{name: t.Name, kind: t.Kind, decl: t})
	}
	for _, n := range Builtins {
		k := "scalar"
		if n == "interface" {
			k = "interface{}"
		}
		add(&typeInfo{name: N(n), kind: k})
	}
	use := func(r Ref) {
		switch r.Kind {
		case "list":
			add(&typeInfo{name: r.Name(), kind: "list", element: r.Element})
		case "map":
			add(&typeInfo{name: r.Name(), kind: "map", element: r.Element, index: r.Index})
		}
	}
	for _, t := range v.Types {
		for _, a := range t.Attrs {
			use(a.Ref)
		}
	}
	for _, r := range v.Resources {
		for _, m := range r.Methods {
			for _, p := range m.Params {
				use(p.Ref)
			}
		}
	}
	var l []*typeInfo
	for _, t := range all {
		l = append(l, t)
	}
	for _, t := range l {
		if t.kind != "list" {
			add(&typeInfo{name: Cat(t.name, ID{"list"}), kind: "list", element: t.name})
		}
	}
	return all
}

type typeInfo struct {
	name, element, index ID
	kind                 string
	decl                 *Type
}

func expectVersion(b *strings.Builder, v *Version) {
	fmt.Fprintf(b, " version %s\n", v.Name)
	var types []*typeInfo
	for _, t := range v.implied() {
		types = append(types, t)
	}
	sort.Slice(types, func(i, j int) bool { return Less(types[i].name, types[j].name) })
	for _, t := range types {
		d := &Decl{Name: t.name}
		if t.decl != nil {
			d = &t.decl.Decl
		}
		extra := ""
		if t.element != nil {
			extra += " element=" + t.element.String()
		}
		if t.index != nil {
			extra += " index=" + t.index.String()
		}
		line(b, 1, t.kind, d, extra)
		if t.decl == nil {
			continue
		}
		attrs := append([]*Attr{}, t.decl.Attrs...)
		sort.Slice(attrs, func(i, j int) bool { return Less(attrs[i].Name, attrs[j].Name) })
		for _, a := range attrs {
			line(b, 2, "attribute", &a.Decl, fmt.Sprintf(" type=%s link=%v", a.Ref.Name(), a.Link))
		}
		values := append([]*Value{}, t.decl.Values...)
		sort.Slice(values, func(i, j int) bool { return Less(values[i].Name, values[j].Name) })
		for _, x := range values {
			line(b, 2, "value", &x.Decl, "")
		}
	}
	resources := append([]*Resource{}, v.Resources...)
	sort.Slice(resources, func(i, j int) bool { return Less(resources[i].Name, resources[j].Name) })
	for _, r := range resources {
		line(b, 1, "resource", &r.Decl, "")
		methods := append([]*Method{}, r.Methods...)
		sort.Slice(methods, func(i, j int) bool { return Less(methods[i].Name, methods[j].Name) })
		for _, m := range methods {
			line(b, 2, "method", &m.Decl, "")
			params := append([]*Param{}, m.Params...)
			sort.Slice(params, func(i, j int) bool { return Less(params[i].Name, params[j].Name) })
			for _, p := range params {
				line(b, 3, "parameter", &p.Decl, fmt.Sprintf(" type=%s in=%v out=%v default=%T:%v", p.Ref.Name(), p.In, p.Out, p.Default, p.Default))
			}
		}
		locators := append([]*Locator{}, r.Locators...)
		sort.Slice(locators, func(i, j int) bool { return Less(locators[i].Name, locators[j].Name) })
		for _, l := range locators {
			line(b, 2, "locator", &l.Decl, fmt.Sprintf(" target=%s variable=%v", l.Target, l.Variable))
		}
	}
	errors := append([]*Error{}, v.Errors...)
	sort.Slice(errors, func(i, j int) bool { return Less(errors[i].Name, errors[j].Name) })
	for _, e := range errors {
		line(b, 1, "error", &e.Decl, fmt.Sprintf(" code=%d", e.Code))
	}
}
