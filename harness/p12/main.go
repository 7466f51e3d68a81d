// Harness of the documentation and the annotations: each declaration has its own.
package main

import (
	"fmt"
	"path/filepath"
	"strings"

	"github.com/openshift-online/ocm-api-metamodel/pkg/annotations"
	"github.com/openshift-online/ocm-api-metamodel/pkg/concepts"
	"github.com/openshift-online/ocm-api-metamodel/pkg/names"

	. "verifharness/h"
	"verifharness/model"
)

func main() { Main(run) }

func run(h *H) {
	models(h)
	layouts(h)
	across(h)
	values(h)
}

func models(h *H) {
	dir := filepath.Join(h.Scratch, "model")
	g := &model.Gen{R: h.Rand, Size: 5}
	n := h.N(200, 4000)
	for i := 0; i < n; i++ {
		m := g.Model()
		want := model.Expect(m)
		if err := model.Clean(dir); err != nil {
			h.Fail("harness", "%v", err)
			return
		}
		text, err := model.Style{Rand: h.Rand}.Write(m, dir)
		if err != nil {
			h.Fail("harness", "%v", err)
			return
		}
		h.Case(text, func() {
			r := model.Read(dir)
			if !h.True("documented models are read without errors", r.Err == nil && r.Count == 0, "%v\n%s", r.Err, r.Errors) {
				return
			}
			got, _ := model.Dump(r.Model)
			h.True("every declaration has its documentation and annotations", got == want, "%s", model.Diff(got, want))
		})
	}
	h.Bound("%d random models", n)
}

type documented interface {
	concepts.Annotated
	Doc() string
	Name() *names.Name
}

// layouts: lines of comments, blank lines and declarations in any sequence.
func layouts(h *H) {
	dir := filepath.Join(h.Scratch, "model")
	n := h.N(800, 15000)
	for i := 0; i < n; i++ {
		var lines []string
		want := map[string]string{}
		var run []string // comment lines right before
		comment := func(indent string) {
			c := h.Pick("// Some text.", "//", "// \tTabbed", "//   more", "// other line", "// x // y", "// @json(name = \"no\")", "// ñandú", "// class Fake {", "// }")
			if len(run) == 0 && h.Rand.Intn(3) > 0 {
				c = "// First"
			}
			lines = append(lines, indent+c)
			run = append(run, c)
		}
		blank := func() { lines = append(lines, h.Pick("", "\t", "  ")); run = nil }
		noise := func(indent string) {
			k := h.Rand.Intn(5)
			long := h.Rand.Intn(12) == 0
			if long {
				k = 10 + h.Rand.Intn(60)
			}
			for ; k > 0; k-- {
				c := h.Rand.Intn(6)
				if long {
					c = 6
				}
				switch c {
				case 0:
					blank()
				case 1:
					lines = append(lines, indent+"/* block */")
					run = nil
				default:
					comment(indent)
				}
			}
		}
		problem := false
		doc := func() string {
			var l []string
			prefix := ""
			for k, c := range run {
				c = strings.TrimPrefix(c, "//")
				if k == 0 {
					t := strings.TrimLeft(c, " \t")
					prefix = c[:len(c)-len(t)]
					if t == "" {
						// a blank first line doesn't tell the indentation
						prefix = ""
					}
				}
				if c != "" {
					if !strings.HasPrefix(c, prefix) {
						problem = true
					}
					c = strings.TrimPrefix(c, prefix)
				}
				l = append(l, c)
			}
			run = nil
			return strings.Join(l, "\n")
		}
		declare := func(key, text string) {
			want[key] = doc()
			lines = append(lines, text)
		}
		noise("")
		for t := 0; t < 1+h.Rand.Intn(3); t++ {
			name := []string{"Alpha", "Beta", "Gamma"}[t]
			declare(name, "class "+name+" {")
			noise("\t")
			for a := 0; a < h.Rand.Intn(3); a++ {
				attr := []string{"One", "Two", "Three"}[a]
				declare(name+"."+attr, "\t"+attr+" String")
				noise("\t")
			}
			lines = append(lines, "}")
			// the comments before the end of the class don't document what follows
			run = nil
			noise("")
		}
		if h.Rand.Intn(2) == 0 {
			declare("Oops", "error Oops {")
			lines = append(lines, "\tcode 7", "}")
			run = nil
			noise("")
		}
		declare("Root", "resource Root {")
		noise("\t")
		declare("Root.Act", "\tmethod Act {")
		noise("\t\t")
		declare("Root.Act.P", "\t\tin P String")
		lines = append(lines, "\t}", "}")
		text := strings.Join(lines, "\n") + "\n"
		if err := model.Files(dir, map[string]string{"svc/v1/x.model": text}); err != nil {
			h.Fail("harness", "%v", err)
			return
		}
		h.Case(text, func() {
			r := model.Read(dir)
			if problem {
				h.True("documentation with a different prefix is rejected", r.Err != nil, "accepted")
				return
			}
			if !h.True("documented models are read without errors", r.Err == nil && r.Count == 0, "%v\n%s", r.Err, r.Errors) {
				return
			}
			got := map[string]string{}
			v := r.Model.Services()[0].Versions()[0]
			for _, t := range v.Types() {
				if !t.IsClass() {
					continue
				}
				got[t.Name().Camel()] = t.Doc()
				for _, a := range t.Attributes() {
					got[t.Name().Camel()+"."+a.Name().Camel()] = a.Doc()
				}
			}
			for _, e := range v.Errors() {
				got[e.Name().Camel()] = e.Doc()
			}
			for _, x := range v.Resources() {
				got[x.Name().Camel()] = x.Doc()
				for _, m := range x.Methods() {
					got[x.Name().Camel()+"."+m.Name().Camel()] = m.Doc()
					for _, p := range m.Parameters() {
						got[x.Name().Camel()+"."+m.Name().Camel()+"."+p.Name().Camel()] = p.Doc()
					}
				}
			}
			for k, w := range want {
				if !h.True("the documentation is that of the comments right before", got[k] == w, "%s: %q, expected %q", k, got[k], w) {
					break
				}
			}
		})
		if h.Failed() && i > 50 {
			break
		}
	}
	h.Bound("%d random layouts of comments in one file", n)
}

// across: the documentation of a file isn't mixed with that of others, also when they are loaded
// while processing it because of a reference.
func across(h *H) {
	dir := filepath.Join(h.Scratch, "model")
	for _, pad := range []int{0, 1, 3, 7, 12, 20} {
		filler := strings.Repeat("// Filler.\n", pad)
		files := map[string]string{
			"mine/v1/x.model":      "// Mine.\n@ref(path = \"/other_one/v1/alpha\")\nclass Alpha {\n}\n" + strings.Repeat("\n", pad) + "// Documented.\nclass Beta {\n\t// Attribute.\n\tx String\n}\nresource Root {\n\t// Method.\n\tmethod Act {\n\t}\n}\n",
			"mine/v1/z.model":      "class Zeta {\n}\n\nclass Eta {\n\ty String\n}\n\n\nclass Theta {\n}\n",
			"other_one/v1/x.model": filler + "// Alpha of the other.\nclass Alpha {\n\t// Other.\n\tx String\n}\n" + filler + "\nresource Root {\n" + filler + "}\n",
		}
		if err := model.Files(dir, files); err != nil {
			h.Fail("harness", "%v", err)
			return
		}
		h.Case(fmt.Sprint(files), func() {
			r := model.Read(dir)
			if !h.True("documented models are read without errors", r.Err == nil, "%v\n%s", r.Err, r.Errors) {
				return
			}
			v := r.Model.FindService(names.ParseUsingSeparator("mine", "_")).Versions()[0]
			find := func(n string) *concepts.Type { return v.FindType(names.ParseUsingSeparator(n, "_")) }
			beta := find("beta")
			h.Equal("loading another file doesn't lose the documentation", beta.Doc(), "Documented.")
			h.Equal("loading another file doesn't lose the documentation", beta.Attributes()[0].Doc(), "Attribute.")
			h.Equal("loading another file doesn't lose the documentation", v.Root().Methods()[0].Doc(), "Method.")
			for _, n := range []string{"zeta", "eta", "theta"} {
				h.Equal("the documentation of other files isn't used", find(n).Doc(), "")
			}
			h.Equal("the documentation of other files isn't used", find("eta").Attributes()[0].Doc(), "")
		})
	}
}

// values: the parameters of annotations have the values written.
func values(h *H) {
	dir := filepath.Join(h.Scratch, "model")
	for i := 0; i < h.N(200, 3000); i++ {
		type ann struct {
			name   string
			params map[string]interface{}
		}
		var want []ann
		text := ""
		for k := 0; k < h.Rand.Intn(4); k++ {
			a := ann{h.Pick("json", "http", "go", "custom", "other"), map[string]interface{}{}}
			text += "@" + a.name
			var ps []string
			for p := 0; p < h.Rand.Intn(4); p++ {
				n := []string{"name", "path", "flag", "count"}[p]
				switch h.Rand.Intn(3) {
				case 0:
					x := h.Pick("", "text", "with space", "a_b-c", "{x}", "a,b=c", "ñ")
					a.params[n] = x
					if h.Rand.Intn(2) == 0 {
						ps = append(ps, fmt.Sprintf("%s = %q", n, x))
					} else {
						ps = append(ps, fmt.Sprintf("%s=`%s`", n, x))
					}
				case 1:
					x := h.Rand.Intn(100000)
					a.params[n] = x
					ps = append(ps, fmt.Sprintf("%s = %d", n, x))
				case 2:
					x := h.Rand.Intn(2) == 0
					a.params[n] = x
					ps = append(ps, fmt.Sprintf("%s = %v", n, x))
				}
			}
			if len(ps) > 0 || h.Rand.Intn(2) == 0 {
				text += "(" + strings.Join(ps, h.Pick(" ", " \n ")) + ")"
			}
			text += h.Pick("\n", " ")
			want = append(want, a)
		}
		head := text
		text = text + "class Alpha {\n\tPlain String\n\t" + head + " One String\n}\n" +
			"class Beta {\n}\nresource Root {\n\t" + head + " method Act {\n\t\t" + head + " in P String\n\t}\n}\n"
		if err := model.Files(dir, map[string]string{"svc/v1/x.model": text}); err != nil {
			h.Fail("harness", "%v", err)
			return
		}
		h.Case(text, func() {
			r := model.Read(dir)
			if !h.True("annotated models are read without errors", r.Err == nil && r.Count == 0, "%v\n%s", r.Err, r.Errors) {
				return
			}
			v := r.Model.Services()[0].Versions()[0]
			alpha := v.FindType(names.ParseUsingSeparator("alpha", "_"))
			act := v.Root().Methods()[0]
			for _, x := range []documented{alpha, alpha.Attributes()[0], act, act.Parameters()[0]} {
				got := x.Annotations()
				if !h.True("every annotation is kept, in order", len(got) == len(want), "%d of %s, expected %d", len(got), x.Name(), len(want)) {
					return
				}
				for k, a := range got {
					h.Equal("every annotation is kept, in order", a.Name(), want[k].name)
					for _, n := range model.AnnNames {
						h.Equal("the parameters of annotations have the values written", a.FindParameter(n), want[k].params[n])
					}
				}
				// the first annotation with a name is the one used
				for _, n := range []string{"json", "http", "go", "custom", "none"} {
					first := -1
					for k := len(want) - 1; k >= 0; k-- {
						if want[k].name == n {
							first = k
						}
					}
					f := x.GetAnnotation(n)
					if first < 0 {
						h.True("annotations are found by name", f == nil, "%s found in %s", n, x.Name())
					} else {
						h.True("annotations are found by name", f == got[first], "%s of %s isn't the first", n, x.Name())
					}
				}
			}
			other := v.FindType(names.ParseUsingSeparator("beta", "_"))
			h.True("declarations don't get the annotations of others", len(other.Annotations()) == 0 && len(alpha.Attributes()[1].Annotations()) == 0 && len(v.Root().Annotations()) == 0, "%d", len(other.Annotations()))
			_ = annotations.JSONName(alpha)
		})
		if h.Failed() {
			break
		}
	}
}
