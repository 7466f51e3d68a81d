// Harness of the order of the listings.
package main

import (
	"fmt"
	"strings"

	"github.com/openshift-online/ocm-api-metamodel/pkg/concepts"
	"github.com/openshift-online/ocm-api-metamodel/pkg/names"
	. "verifharness/h"
)

func main() { Main(run) }

type listing struct {
	what string
	// add adds the names and list returns the names listed:
	run func(texts []string) (func() []*names.Name, func(int) bool)
}

var vocab = []string{"a", "ab", "b", "cluster", "ID", "AWS", "name", "Zed", "x86", "URLs"}

func parse(t string) *names.Name {
	var l []*names.Word
	for _, p := range strings.Split(t, " ") {
		if strings.ToUpper(p) == p && len(p) > 1 {
			l = append(l, names.NewInitialism(p))
		} else {
			l = append(l, names.NewWord(p))
		}
	}
	return names.NewName(l...)
}

func run(h *H) {
	kinds := []string{"services", "versions", "types", "resources", "errors", "methods", "locators", "attributes", "values", "parameters"}
	n := h.N(60, 3000)
	h.Bound("%d sets of up to 25 names per kind of concept, two orders of insertion each", n)
	for k := 0; k < n; k++ {
		set := map[string]bool{}
		for i := 0; i < 1+h.Rand.Intn(25); i++ {
			var l []string
			for j := 0; j < 1+h.Rand.Intn(3); j++ {
				l = append(l, h.Pick(vocab...))
			}
			set[strings.Join(l, " ")] = true
		}
		texts := Keys(set)
		perm := append([]string{}, texts...)
		h.Rand.Shuffle(len(perm), func(i, j int) { perm[i], perm[j] = perm[j], perm[i] })
		for _, kind := range kinds {
			h.Case(kind+" "+strings.Join(perm, ","), func() {
				builtin := map[string]bool{}
				a, copies := list(kind, texts, builtin)
				b, _ := list(kind, perm, builtin)
				h.Equal("listing doesn't depend on the order of addition: "+kind, fmt.Sprint(show(b)), fmt.Sprint(show(a)))
				count := map[string]int{}
				for i, x := range a {
					count[x.String()]++
					if i > 0 {
						h.True("listing is sorted by name: "+kind, compare(a[i-1], x) <= 0, "%v", show(a))
					}
				}
				ok := true
				for _, t := range texts {
					ok = ok && count[parse(t).String()] == 1
				}
				extra := 0
				for t, c := range count {
					if c != 1 {
						ok = false
					}
					if !builtin[t] {
						extra++
					}
				}
				h.True("listing has everything once: "+kind, ok && extra == len(texts), "%v", show(a))
				h.True("listing is repeatable: "+kind, copies(), "%v", show(a))
			})
		}
	}
}

// compare is the specification of the order.
func compare(a, b *names.Name) int {
	x, y := a.Words(), b.Words()
	for i := 0; i < len(x) && i < len(y); i++ {
		if c := strings.Compare(x[i].String(), y[i].String()); c != 0 {
			return c
		}
	}
	return len(x) - len(y)
}

func show(l []*names.Name) []string {
	var r []string
	for _, n := range l {
		r = append(r, n.String())
	}
	return r
}

func list(kind string, texts []string, builtin map[string]bool) ([]*names.Name, func() bool) {
	var r []*names.Name
	var again func() []*names.Name
	switch kind {
	case "services":
		m := concepts.NewModel()
		for _, t := range texts {
			x := concepts.NewService()
			x.SetName(parse(t))
			m.AddService(x)
		}
		again = func() (r []*names.Name) {
			for _, x := range m.Services() {
				r = append(r, x.Name())
			}
			return
		}
	case "versions":
		m := concepts.NewService()
		for _, t := range texts {
			x := concepts.NewVersion()
			x.SetName(parse(t))
			m.AddVersion(x)
		}
		again = func() (r []*names.Name) {
			for _, x := range m.Versions() {
				r = append(r, x.Name())
			}
			return
		}
	case "types":
		m := concepts.NewVersion()
		for _, x := range m.Types() {
			builtin[x.Name().String()] = true
		}
		for _, t := range texts {
			x := concepts.NewType()
			x.SetName(parse(t))
			m.AddType(x)
		}
		again = func() (r []*names.Name) {
			for _, x := range m.Types() {
				r = append(r, x.Name())
			}
			return
		}
	case "resources":
		m := concepts.NewVersion()
		for _, t := range texts {
			x := concepts.NewResource()
			x.SetName(parse(t))
			m.AddResource(x)
		}
		again = func() (r []*names.Name) {
			for _, x := range m.Resources() {
				r = append(r, x.Name())
			}
			return
		}
	case "errors":
		m := concepts.NewVersion()
		for _, t := range texts {
			x := concepts.NewError()
			x.SetName(parse(t))
			m.AddError(x)
		}
		again = func() (r []*names.Name) {
			for _, x := range m.Errors() {
				r = append(r, x.Name())
			}
			return
		}
	case "methods":
		m := concepts.NewResource()
		for _, t := range texts {
			x := concepts.NewMethod()
			x.SetName(parse(t))
			m.AddMethod(x)
		}
		again = func() (r []*names.Name) {
			for _, x := range m.Methods() {
				r = append(r, x.Name())
			}
			return
		}
	case "locators":
		m := concepts.NewResource()
		for _, t := range texts {
			x := concepts.NewLocator()
			x.SetName(parse(t))
			m.AddLocator(x)
		}
		again = func() (r []*names.Name) {
			for _, x := range m.Locators() {
				r = append(r, x.Name())
			}
			return
		}
	case "attributes":
		m := concepts.NewType()
		for _, t := range texts {
			x := concepts.NewAttribute()
			x.SetName(parse(t))
			m.AddAttribute(x)
		}
		again = func() (r []*names.Name) {
			for _, x := range m.Attributes() {
				r = append(r, x.Name())
			}
			return
		}
	case "values":
		m := concepts.NewType()
		for _, t := range texts {
			x := concepts.NewEnumValue()
			x.SetName(parse(t))
			m.AddValue(x)
		}
		again = func() (r []*names.Name) {
			for _, x := range m.Values() {
				r = append(r, x.Name())
			}
			return
		}
	case "parameters":
		m := concepts.NewMethod()
		for _, t := range texts {
			x := concepts.NewParameter()
			x.SetName(parse(t))
			m.AddParameter(x)
		}
		again = func() (r []*names.Name) {
			for _, x := range m.Parameters() {
				r = append(r, x.Name())
			}
			return
		}
	}
	r = again()
	return r, func() bool {
		for i := 0; i < 3; i++ {
			if fmt.Sprint(show(again())) != fmt.Sprint(show(r)) {
				return false
			}
		}
		return true
	}
}
