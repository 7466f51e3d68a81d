package model

import (
	"fmt"
	"strings"

	"github.com/openshift-online/ocm-api-metamodel/pkg/concepts"
	"github.com/openshift-online/ocm-api-metamodel/pkg/names"
)

func real(n *names.Name) string {
	if n == nil {
		return "nil"
	}
	var l []string
	for _, w := range n.Words() {
		l = append(l, w.String())
	}
	return strings.Join(l, "_")
}

func realAnns(x concepts.Annotated) string {
	r := ""
	for _, a := range x.Annotations() {
		ps := map[string]interface{}{}
		for _, k := range AnnNames {
			ps[k] = a.FindParameter(k)
		}
		r += " @" + a.Name() + paramText(ps)
	}
	return r
}

type documented interface {
	concepts.Annotated
	Name() *names.Name
	Doc() string
}

func rline(b *strings.Builder, indent int, what string, d documented, extra string) {
	fmt.Fprintf(b, "%s%s %s doc=%q%s%s\n", strings.Repeat("  ", indent), what, real(d.Name()), d.Doc(), realAnns(d), extra)
}

// Dump describes the given model, and returns the inconsistencies found in it.
func Dump(m *concepts.Model) (text string, problems []string) {
	b := &strings.Builder{}
	bad := func(format string, args ...interface{}) { problems = append(problems, fmt.Sprintf(format, args...)) }
	for _, s := range m.Services() {
		fmt.Fprintf(b, "service %s\n", real(s.Name()))
		if s.Owner() != m {
			bad("owner of service %s", real(s.Name()))
		}
		for _, v := range s.Versions() {
			fmt.Fprintf(b, " version %s\n", real(v.Name()))
			if v.Owner() != s {
				bad("owner of version %s", real(v.Name()))
			}
			check := func(t *concepts.Type, what string) string {
				if t == nil {
					bad("%s has no type", what)
					return "nil"
				}
				if v.FindType(t.Name()) != t {
					bad("type %s of %s isn't the one of the version", real(t.Name()), what)
				}
				return real(t.Name())
			}
			for _, t := range v.Types() {
				name := real(t.Name())
				if t.Owner() != v {
					bad("owner of type %s", name)
				}
				extra := ""
				if t.IsList() || t.IsMap() {
					extra += " element=" + check(t.Element(), "element of "+name)
				}
				if t.IsMap() {
					extra += " index=" + check(t.Index(), "index of "+name)
				}
				rline(b, 1, t.Kind().String(), t, extra)
				for _, a := range t.Attributes() {
					if a.Owner() != t {
						bad("owner of attribute %s of %s", real(a.Name()), name)
					}
					rline(b, 2, "attribute", a, fmt.Sprintf(" type=%s link=%v", check(a.Type(), name+"."+real(a.Name())), a.Link()))
				}
				for _, x := range t.Values() {
					if x.Type() != t {
						bad("type of value %s of %s", real(x.Name()), name)
					}
					rline(b, 2, "value", x, "")
				}
			}
			for _, r := range v.Resources() {
				name := real(r.Name())
				if r.Owner() != v {
					bad("owner of resource %s", name)
				}
				rline(b, 1, "resource", r, "")
				for _, x := range r.Methods() {
					if x.Owner() != r {
						bad("owner of method %s of %s", real(x.Name()), name)
					}
					rline(b, 2, "method", x, "")
					for _, p := range x.Parameters() {
						if p.Owner() != x {
							bad("owner of parameter %s of %s.%s", real(p.Name()), name, real(x.Name()))
						}
						rline(b, 3, "parameter", p, fmt.Sprintf(" type=%s in=%v out=%v default=%T:%v",
							check(p.Type(), name+"."+real(x.Name())+"."+real(p.Name())), p.In(), p.Out(), p.Default(), p.Default()))
					}
				}
				for _, l := range r.Locators() {
					if l.Owner() != r {
						bad("owner of locator %s of %s", real(l.Name()), name)
					}
					target := "nil"
					if l.Target() != nil {
						target = real(l.Target().Name())
						if v.FindResource(l.Target().Name()) != l.Target() {
							bad("target %s of locator %s of %s isn't the one of the version", target, real(l.Name()), name)
						}
					}
					rline(b, 2, "locator", l, fmt.Sprintf(" target=%s variable=%v", target, l.Variable()))
				}
			}
			for _, e := range v.Errors() {
				if e.Owner() != v {
					bad("owner of error %s", real(e.Name()))
				}
				rline(b, 1, "error", e, fmt.Sprintf(" code=%d", e.Code()))
			}
		}
	}
	return b.String(), problems
}

// Diff returns the first lines that are different.
func Diff(got, want string) string {
	g, w := strings.Split(got, "\n"), strings.Split(want, "\n")
	r := ""
	n := 0
	gm, wm := map[string]int{}, map[string]int{}
	for _, l := range g {
		gm[l]++
	}
	for _, l := range w {
		wm[l]++
	}
	for _, l := range g {
		if gm[l] > wm[l] && n < 6 {
			r += "\n+ " + l
			n++
		}
	}
	n = 0
	for _, l := range w {
		if wm[l] > gm[l] && n < 6 {
			r += "\n- " + l
			n++
		}
	}
	if r == "" && got != want {
		for i := range g {
			if i >= len(w) || g[i] != w[i] {
				return fmt.Sprintf("order differs at line %d: %s", i, g[i])
			}
		}
	}
	return r
}
