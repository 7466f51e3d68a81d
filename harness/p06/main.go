// Harness of the classification of methods, parameters and types.
package main

import (
	"fmt"
	"strings"

	"github.com/openshift-online/ocm-api-metamodel/pkg/concepts"
	"github.com/openshift-online/ocm-api-metamodel/pkg/names"
	"github.com/openshift-online/ocm-api-metamodel/pkg/nomenclator"
	. "verifharness/h"
)

func main() { Main(run) }

var methodNames = []string{
	"Add", "Delete", "AsyncDelete", "Get", "List", "Post", "Search", "Update", "AsyncUpdate",
	// names that are similar but aren't the standard ones:
	"Ad", "AddAll", "AsyncAdd", "DeleteAsync", "Async", "AsyncGet", "GetAll", "Gets", "Lists", "ListAll", "Posts", "PostAll",
	"SearchAll", "Updates", "UpdateAsync", "AsyncUpdateAll", "AsyncDeleteAll", "Register", "Test", "Patch", "Put", "Body", "Items", "Root",
	"Remove", "Create", "ReDelete", "XAdd", "AsyncList", "AsyncSearch", "AsyncPost", "AddDelete",
}

func words(n *names.Name) []string {
	var l []string
	for _, w := range n.Words() {
		l = append(l, w.String())
	}
	return l
}

func run(h *H) {
	// The well known names that the contracts rely on:
	known := map[string]*names.Name{
		"add": nomenclator.Add, "delete": nomenclator.Delete, "get": nomenclator.Get, "list": nomenclator.List,
		"post": nomenclator.Post, "search": nomenclator.Search, "update": nomenclator.Update, "items": nomenclator.Items,
		"body": nomenclator.Body, "root": nomenclator.Root, "boolean": nomenclator.Boolean, "integer": nomenclator.Integer,
		"long": nomenclator.Long, "float": nomenclator.Float, "string": nomenclator.String, "date": nomenclator.Date,
		"interface": nomenclator.Interface, "page": nomenclator.Page, "size": nomenclator.Size, "total": nomenclator.Total,
		"async delete": nomenclator.AsyncDelete, "async update": nomenclator.AsyncUpdate,
	}
	for text, n := range known {
		h.Case("well known name "+text, func() {
			var l []*names.Word
			for _, w := range strings.Split(text, " ") {
				l = append(l, names.NewWord(w))
			}
			want := names.NewName(l...)
			if h.True("well known names have the expected words", n != nil, "nil") {
				h.True("well known names have the expected words", n.Equals(want) && len(n.Words()) == len(l), "words are %v", words(n))
			}
		})
	}

	// Methods:
	all := append([]string{}, methodNames...)
	for i := 0; i < h.N(300, 20000); i++ {
		parts := []string{"Add", "Delete", "Async", "Get", "List", "Post", "Search", "Update", "X", "Do"}
		n := 1 + h.Rand.Intn(4)
		s := ""
		for j := 0; j < n; j++ {
			s += parts[h.Rand.Intn(len(parts))]
		}
		all = append(all, s)
	}
	std := map[string]int{"add": 0, "delete": 1, "async_delete": 2, "get": 3, "list": 4, "post": 5, "search": 6, "update": 7, "async_update": 8}
	for _, text := range all {
		h.Case("method "+text, func() {
			m := concepts.NewMethod()
			m.SetName(names.ParseUsingCase(text))
			// independent of the parser: a capital letter starts a word
			key := ""
			for i, c := range text {
				if c >= 'A' && c <= 'Z' {
					if i > 0 {
						key += "_"
					}
					c += 'a' - 'A'
				}
				key += string(c)
			}
			want, standard := std[key]
			if !standard {
				want = -1
			}
			got := []bool{m.IsAdd(), m.IsDelete(), m.IsAsyncDelete(), m.IsGet(), m.IsList(), m.IsPost(), m.IsSearch(), m.IsUpdate(), m.IsAsyncUpdate()}
			for i, b := range got {
				h.True("standard methods are recognised by their whole name", b == (i == want), "predicate %d is %v", i, b)
			}
			h.True("a method is an action iff its name isn't a standard one", m.IsAction() == !standard, "is action %v", m.IsAction())
			for _, pn := range []string{"Body", "Items", "body", "items", "BodyItems", "Page", "Bodies", "Item", "ABody"} {
				p := concepts.NewParameter()
				p.SetName(names.ParseUsingCase(pn))
				m.AddParameter(p)
				low := strings.ToLower(pn)
				isItems := (key == "list" || key == "search") && low == "items"
				isBody := (key == "add" || key == "get" || key == "search" || key == "update" || key == "async_update") && low == "body"
				h.True("items and body parameters", p.IsItems() == isItems, "parameter %s: is items %v", pn, p.IsItems())
				h.True("items and body parameters", p.IsBody() == isBody, "parameter %s: is body %v", pn, p.IsBody())
			}
		})
	}

	// Parameters without owner:
	h.Case("parameter without method", func() {
		p := concepts.NewParameter()
		p.SetName(names.ParseUsingCase("Items"))
		h.True("items and body parameters", !p.IsItems() && !p.IsBody(), "a parameter without method")
	})

	// Kinds:
	for k := concepts.UndefinedType; k <= concepts.StructType; k++ {
		h.Case(fmt.Sprintf("kind %d", int(k)), func() {
			t := concepts.NewType()
			t.SetName(names.ParseUsingCase("MyType"))
			t.SetKind(k)
			h.Equal("kind is the one set", t.Kind(), k)
			chk := func(what string, got, want bool) {
				h.True("kind predicates", got == want, "kind %d: %s is %v", int(k), what, got)
			}
			chk("class", t.IsClass(), k == concepts.ClassType)
			chk("enum", t.IsEnum(), k == concepts.EnumType)
			chk("interface", t.IsInterface(), k == concepts.InterfaceType)
			chk("list", t.IsList(), k == concepts.ListType)
			chk("map", t.IsMap(), k == concepts.MapType)
			chk("struct", t.IsStruct(), k == concepts.StructType || k == concepts.ClassType)
			chk("scalar", t.IsScalar(), k == concepts.ScalarType || k == concepts.EnumType || k == concepts.InterfaceType)
			chk("basic", t.IsBasicType(), k == concepts.ScalarType || k == concepts.InterfaceType)
			want := map[concepts.TypeKind]string{concepts.UndefinedType: "unknown", concepts.ClassType: "class", concepts.EnumType: "enum",
				concepts.InterfaceType: "interface{}", concepts.ListType: "list", concepts.MapType: "map", concepts.ScalarType: "scalar", concepts.StructType: "struct"}[k]
			h.Equal("text of a kind", k.String(), want)
		})
	}
	h.Case("nil type", func() {
		var t *concepts.Type
		h.True("kind predicates", !t.IsScalar() && !t.IsBasicType(), "nil type")
	})

	// Built-in types of the versions:
	builtins := []string{"Boolean", "Integer", "Long", "Float", "String", "Date", "Interface"}
	pred := func(t *concepts.Type) []bool {
		return []bool{t.IsBoolean(), t.IsInteger(), t.IsLong(), t.IsFloat(), t.IsString(), t.IsDate()}
	}
	get := func(v *concepts.Version) []*concepts.Type {
		return []*concepts.Type{v.Boolean(), v.IntegerType(), v.LongType(), v.FloatType(), v.StringType(), v.DateType(), v.InterfaceType()}
	}
	for round := 0; round < h.N(5, 60); round++ {
		h.Case(fmt.Sprintf("new version, round %d", round), func() {
			v := concepts.NewVersion()
			h.Equal("a new version has the built-in types and their lists", len(v.Types()), 2*len(builtins))
			for i, b := range builtins {
				t := v.FindType(names.ParseUsingCase(b))
				if !h.True("a new version has the built-in types and their lists", t != nil, "there is no %s", b) {
					continue
				}
				h.True("built-in types are found by their getters", get(v)[i] == t, "getter of %s", b)
				h.True("built-in types have the version as owner", t.Owner() == v, "%s", b)
				k := concepts.ScalarType
				if b == "Interface" {
					k = concepts.InterfaceType
				}
				h.Equal("kind of the built-in types", t.Kind(), k)
				for j, p := range pred(t) {
					h.True("built-in type predicates", p == (i == j), "%s: predicate %d is %v", b, j, p)
				}
				l := v.FindType(names.ParseUsingCase(b + "List"))
				if h.True("a new version has the built-in types and their lists", l != nil, "there is no list of %s", b) {
					h.True("the element of a built-in list is the built-in type", l.IsList() && l.Element() == t, "list of %s", b)
					for j, p := range pred(l) {
						h.True("built-in type predicates", !p, "list of %s: predicate %d", b, j)
					}
				}
			}
			// types of other versions, and types without version, aren't the built-in ones:
			for _, b := range builtins {
				o := concepts.NewType()
				o.SetName(names.ParseUsingCase(b))
				o.SetKind(concepts.ScalarType)
				for j, p := range pred(o) {
					h.True("built-in type predicates", !p, "%s without version: predicate %d", b, j)
				}
				o.SetOwner(v)
				for j, p := range pred(o) {
					h.True("built-in type predicates", !p, "%s not added to the version: predicate %d", b, j)
				}
			}
		})
	}
	h.Bound("method names made of up to 4 words of a pool of 10 plus %d fixed names; the 8 kinds; the 7 built-in types", len(methodNames))
}
