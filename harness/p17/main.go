// Harness of the Go names and packages.
package main

import (
	"bytes"
	"fmt"
	"go/token"
	"path"
	"strings"

	"github.com/openshift-online/ocm-api-metamodel/pkg/concepts"
	"github.com/openshift-online/ocm-api-metamodel/pkg/generators/golang"
	"github.com/openshift-online/ocm-api-metamodel/pkg/names"
	"github.com/openshift-online/ocm-api-metamodel/pkg/nomenclator"
	"github.com/openshift-online/ocm-api-metamodel/pkg/reporter"
	. "verifharness/h"
)

func main() { Main(run) }

type word struct {
	text string
	init bool
}

var keywords = []string{"break", "case", "chan", "const", "continue", "default", "defer", "else", "fallthrough", "for", "func", "go", "goto", "if", "import",
	"interface", "map", "package", "range", "return", "select", "struct", "switch", "type", "var"}

func mk(l []word) *names.Name {
	var ws []*names.Word
	for _, w := range l {
		if w.init {
			ws = append(ws, names.NewInitialism(w.text))
		} else {
			ws = append(ws, names.NewWord(w.text))
		}
	}
	return names.NewName(ws...)
}

func escape(s string) string {
	if token.IsKeyword(s) {
		return s + "_"
	}
	return s
}

func capital(w word) string {
	if w.init {
		return w.text
	}
	return strings.ToUpper(w.text[:1]) + w.text[1:]
}

func run(h *H) {
	var out, errs bytes.Buffer
	rep, err := reporter.New().Streams(&out, &errs).Build()
	calc, err2 := golang.NewNamesCalculator().Reporter(rep).Build()
	if err != nil || err2 != nil {
		h.Case("calculators", func() { h.Fail("the calculators can be created", "%v %v", err, err2) })
		return
	}
	h.Case("well known names", func() {
		h.Equal("the names of the packages", nomenclator.Helpers.String(), "helpers")
		h.Equal("the names of the packages", nomenclator.Metrics.String(), "metrics")
		h.Equal("the names of the packages", nomenclator.Errors.String(), "errors")
	})
	reserved := func(w string) {
		h.Case("word "+w, func() {
			h.Equal("reserved words are avoided, others aren't changed", golang.AvoidReservedWord(w), escape(w))
		})
	}
	for _, k := range keywords {
		for _, w := range []string{k, k + "s", k[:len(k)-1], strings.ToUpper(k), strings.ToUpper(k[:1]) + k[1:], "_" + k, k + "_"} {
			reserved(w)
		}
	}
	for _, w := range []string{"", "string", "int", "error", "nil", "true", "len", "append", "any", "cluster", "id", "goTo", "fallThrough", "new", "make"} {
		reserved(w)
	}
	pool := []word{{"cluster", false}, {"AWS", true}, {"VPCs", true}, {"id", false}, {"x", false}, {"v1", false}, {"GCP", true}, {"go", false}, {"to", false}, {"fall", false}, {"through", false}, {"GO", true}, {"IF", true}}
	for _, k := range keywords {
		pool = append(pool, word{k, false})
	}
	check := func(l []word) {
		h.Case(fmt.Sprint(l), func() {
			pub, priv := "", ""
			var low []string
			for i, w := range l {
				pub += capital(w)
				if i == 0 {
					priv += strings.ToLower(w.text)
				} else {
					priv += capital(w)
				}
				low = append(low, strings.ToLower(w.text))
			}
			n := mk(l)
			h.Equal("public names are the words capitalized", calc.Public(n), escape(pub))
			h.Equal("private names start with the first word in lower case", calc.Private(n), escape(priv))
			h.Equal("names of files are the words in lower case, with underscores", calc.File(n), strings.Join(low, "_"))
			h.True("public names are exported identifiers", token.IsExported(calc.Public(n)) && token.IsIdentifier(calc.Public(n)), "%s", calc.Public(n))
			h.True("private names are identifiers that aren't exported", !token.IsExported(calc.Private(n)) && token.IsIdentifier(calc.Private(n)), "%s", calc.Private(n))
		})
	}
	for _, a := range pool {
		check([]word{a})
		for _, b := range pool {
			check([]word{a, b})
		}
	}
	for i := 0; i < h.N(2000, 50000); i++ {
		var l []word
		for n := 1 + h.Rand.Intn(6); n > 0; n-- {
			l = append(l, pool[h.Rand.Intn(len(pool))])
		}
		check(l)
	}
	h.Bound("all the names of 1 and 2 words of a pool of %d, including all the reserved words, and random ones of up to 6", len(pool))
	for i := 0; i < h.N(500, 5000); i++ {
		base := h.Pick("example.com/api", "github.com/openshift-online/ocm-sdk-go", "a", "a/b/c")
		var s, v []word
		for n := 1 + h.Rand.Intn(3); n > 0; n-- {
			s = append(s, pool[h.Rand.Intn(len(pool))])
		}
		v = []word{{h.Pick("v1", "v2", "alpha"), false}}
		h.Case(fmt.Sprint(base, s, v), func() {
			p, err := golang.NewPackagesCalculator().Reporter(rep).Base(base).Build()
			if !h.True("the calculators can be created", err == nil, "%v", err) {
				return
			}
			service, version := concepts.NewService(), concepts.NewVersion()
			service.SetName(mk(s))
			version.SetName(mk(v))
			service.AddVersion(version)
			sp := ""
			for _, w := range s {
				sp += strings.ToLower(w.text)
			}
			vp := v[0].text
			h.Equal("packages of services", p.ServicePackage(service), sp)
			h.Equal("packages of services", p.ServiceImport(service), path.Join(base, sp))
			h.Equal("packages of services", p.ServiceSelector(service), sp)
			h.Equal("packages of versions", p.VersionPackage(version), sp+"/"+vp)
			h.Equal("packages of versions", p.VersionImport(version), base+"/"+sp+"/"+vp)
			h.Equal("packages of versions", p.VersionSelector(version), vp)
			h.Equal("other packages", p.HelpersPackage(), "helpers")
			h.Equal("other packages", p.HelpersImport(), base+"/helpers")
			h.Equal("other packages", p.MetricsPackage(), "metrics")
			h.Equal("other packages", p.MetricsImport(), base+"/metrics")
			h.Equal("other packages", p.ErrorsPackage(), "errors")
			h.Equal("other packages", p.ErrorsImport(), base+"/errors")
			h.Equal("other packages", p.BasePackage(), base)
		})
	}
}
