// Harness of the reader: what is read is what was written, whatever the order and the files, and what
// isn't well defined is rejected.
package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"github.com/openshift-online/ocm-api-metamodel/pkg/concepts"
	"github.com/openshift-online/ocm-api-metamodel/pkg/names"

	. "verifharness/h"
	"verifharness/model"
)

func main() { Main(run) }

func run(h *H) {
	valid(h)
	inputs(h)
	faults(h)
	garbled(h)
	references(h)
}

func write(h *H, m *model.Model, dir string) (string, bool) {
	if err := model.Clean(dir); err != nil {
		h.Fail("harness", "%v", err)
		return "", false
	}
	text, err := model.Style{Rand: h.Rand}.Write(m, dir)
	if err != nil {
		h.Fail("harness", "%v", err)
		return "", false
	}
	return text, true
}

func same(h *H, r *model.Result, want string) {
	if !h.True("valid models are read without errors", r.Err == nil && r.Model != nil && r.Count == 0, "%v\n%s", r.Err, r.Errors) {
		return
	}
	got, problems := model.Dump(r.Model)
	h.True("the model read is the one written", got == want, "%s", model.Diff(got, want))
	h.True("references go to the concepts of the same version", len(problems) == 0, "%s", strings.Join(problems, "; "))
}

func valid(h *H) {
	dir := filepath.Join(h.Scratch, "model")
	g := &model.Gen{R: h.Rand, Size: 5, Plain: true}
	n := h.N(200, 4000)
	for i := 0; i < n; i++ {
		m := g.Model()
		want := model.Expect(m)
		for k := 0; k < 2; k++ {
			text, ok := write(h, m, dir)
			if !ok {
				return
			}
			h.Case(text, func() { same(h, model.Read(dir), want) })
		}
	}
	h.Bound("%d random models of up to 2 services of up to 2 versions of up to about 5 types and 5 resources, each written in 2 random layouts of up to 4 files", n)
}

// inputs: the files of a model split in several directories are the same model.
func inputs(h *H) {
	a, b := filepath.Join(h.Scratch, "a"), filepath.Join(h.Scratch, "b")
	g := &model.Gen{R: h.Rand, Size: 5, Plain: true}
	for i := 0; i < h.N(60, 1000); i++ {
		m := g.Model()
		text, ok := write(h, m, a)
		if !ok {
			return
		}
		_ = model.Clean(b)
		// move some of the files:
		_ = filepath.Walk(a, func(path string, info os.FileInfo, err error) error {
			if err != nil || info.IsDir() || h.Rand.Intn(2) == 0 {
				return nil
			}
			rel, _ := filepath.Rel(a, path)
			to := filepath.Join(b, rel)
			_ = os.MkdirAll(filepath.Dir(to), 0755)
			_ = os.Rename(path, to)
			text += "moved " + rel + "\n"
			return nil
		})
		// and things that are ignored:
		_ = os.WriteFile(filepath.Join(b, "README"), []byte("x"), 0644)
		_ = os.WriteFile(filepath.Join(a, m.Services[0].Name.String(), "README"), []byte("x"), 0644)
		want := model.Expect(m)
		h.Case(text, func() { same(h, model.Read(a, b), want) })
		h.Case("reversed "+text, func() { same(h, model.Read(b, a), want) })
	}
}

func camel(n model.ID) string { return n.Camel() }

// faults: a valid model with one thing that makes it invalid.
func faults(h *H) {
	dir := filepath.Join(h.Scratch, "model")
	g := &model.Gen{R: h.Rand, Size: 4, Plain: true}
	n := h.N(900, 15000)
	kinds := map[string]int{}
	for i := 0; i < n; i++ {
		m := g.Model()
		text, ok := write(h, m, dir)
		if !ok {
			return
		}
		s := m.Services[h.Rand.Intn(len(m.Services))]
		v := s.Versions[h.Rand.Intn(len(s.Versions))]
		vdir := filepath.Join(dir, s.Name.String(), v.Name.String())
		fault, extra := "", ""
		decls := []string{"class %s {\n}\n", "struct %s {\n}\n", "enum %s {\n\tOne\n}\n", "class %s {\n\tx String\n}\n"}
		switch h.Rand.Intn(15) {
		case 0:
			fault = "type declared twice"
			extra = fmt.Sprintf(decls[h.Rand.Intn(4)], camel(v.Types[h.Rand.Intn(len(v.Types))].Name))
		case 1:
			fault = "resource declared twice"
			extra = fmt.Sprintf("resource %s {\n}\n", camel(v.Resources[h.Rand.Intn(len(v.Resources))].Name))
		case 2:
			if len(v.Errors) == 0 {
				continue
			}
			fault = "error declared twice"
			extra = fmt.Sprintf("error %s {\n\tcode 5\n}\n", camel(v.Errors[h.Rand.Intn(len(v.Errors))].Name))
		case 3:
			fault = "built-in type declared"
			extra = fmt.Sprintf(decls[h.Rand.Intn(4)], camel(model.N(model.Builtins[h.Rand.Intn(len(model.Builtins))])))
		case 4:
			fault = "undefined type in an attribute"
			extra = fmt.Sprintf("%s UserOne {\n\tx %s\n}\n", h.Pick("class", "struct"), h.Pick("Nothing", "[]Nothing", "[String]Nothing", "[Nothing]String"))
		case 5:
			fault = "undefined type in a parameter"
			extra = fmt.Sprintf("resource UserOne {\n\tmethod Act {\n\t\t%s x %s\n\t}\n}\n", h.Pick("in", "out", "in out"), h.Pick("Nothing", "[]Nothing", "[String]Nothing"))
		case 6:
			fault = "undefined resource"
			extra = fmt.Sprintf("resource UserOne {\n\tlocator Loc {\n\t\ttarget Nobody\n\t\t%s\n\t}\n}\n", h.Pick("", "variable ID"))
		case 7:
			fault = "locator without target"
			extra = fmt.Sprintf("resource UserOne {\n\tlocator Loc {\n\t\t%s\n\t}\n}\n", h.Pick("", "variable ID"))
		case 8:
			fault = "number too large"
			extra = h.Pick("error Huge {\n\tcode 99999999999999999999\n}\n", "resource UserOne {\n\tmethod Act {\n\t\tin x Integer = 99999999999999999999\n\t}\n}\n", "@x(count = 99999999999999999999)\nclass UserOne {\n}\n")
		case 9:
			fault = "syntax error"
			extra = h.Pick("class {\n}\n", "clas X {\n}\n", "class X\n", "class X {\n", "}\n", "class X {\n\tx\n}\n", "class X {\n\tx [String\n}\n", "resource X {\n\tmethod {\n\t}\n}\n",
				"resource X {\n\tlocator L {\n\t\ttarget\n\t}\n}\n", "enum X {\n\tA B\n\t7\n}\n", "error X {\n\tcode abc\n}\n", "#\n", "class X {\n\tx String\n}}\n", "@json(name=)\nclass X {\n}\n", "resource X {\n\tmethod M {\n\t\tin x Integer =\n\t}\n}\n", "/* unfinished\nclass X {\n}\n", "class X {\n\tx \"String\"\n}\n")
		case 10:
			// remove or repeat a brace of one of the files
			fault = "unbalanced braces"
			f := filepath.Join(vdir, "f0.model")
			data, err := os.ReadFile(f)
			if err != nil {
				continue
			}
			// the text of a comment or of a string doesn't have braces
			t := string(data)
			if k := strings.LastIndex(t, "}"); k >= 0 {
				if h.Rand.Intn(2) == 0 {
					t = t[:k] + t[k+1:]
				} else {
					t = t[:k] + "}}" + t[k+1:]
				}
			} else {
				t += "}"
			}
			_ = os.WriteFile(f, []byte(t), 0644)
			text += "==> changed f0.model of " + vdir + "\n" + t
		case 11:
			fault = "no root"
			m.Services = append([]*model.Service{}, m.Services...)
			sub := filepath.Join(dir, s.Name.String(), "v77")
			_ = os.MkdirAll(sub, 0755)
			t := "class Alone {\n}\nresource Clusters {\n}\n"
			_ = os.WriteFile(filepath.Join(sub, "x.model"), []byte(t), 0644)
			text += "==> v77/x.model\n" + t
		case 12:
			fault = "type of other version"
			sub := filepath.Join(dir, s.Name.String(), "v77")
			_ = os.MkdirAll(sub, 0755)
			t := fmt.Sprintf("class UserOne {\n\tx %s%s\n}\nresource Root {\n}\n", h.Pick("", "[]", "[String]"), camel(v.Types[0].Name))
			_ = os.WriteFile(filepath.Join(sub, "x.model"), []byte(t), 0644)
			text += "==> v77/x.model\n" + t
		case 14:
			fault = "syntax error and nothing else in a file"
			extra = h.Pick("class X {\n\tx\n}\n", "class {\n", "resource X {\n\tmethod M {\n\t\tin\n\t}\n}\n", "resource X {\n\tlocator {\n\t\ttarget Root\n\t}\n}\n", "enum {\n}\n", "@\nclass X {\n}\n", "error X {\n\tcode\n}\n", "class X {\n\tlink\n}\n", "class X {\n\tx []\n}\n", "class X {\n\tx [String]\n}\n", "@a(b)\nclass X {\n}\n", "@a(b = )\nclass X {\n}\n")
		case 13:
			fault = "resource of other version"
			sub := filepath.Join(dir, s.Name.String(), h.Pick("v0", "v77"))
			_ = os.MkdirAll(sub, 0755)
			if len(v.Resources) < 2 {
				continue
			}
			t := fmt.Sprintf("resource Root {\n\tlocator Loc {\n\t\ttarget %s\n\t}\n}\n", camel(v.Resources[1].Name))
			_ = os.WriteFile(filepath.Join(sub, "x.model"), []byte(t), 0644)
			text += "==> other version, x.model\n" + t
		}
		if h.Rand.Intn(2) == 0 {
			// another service, or another version of the same one, that uses and then declares what is missing
			sub := filepath.Join(dir, h.Pick("aaa", "zzz", s.Name.String()), h.Pick(v.Name.String(), "v66"))
			if filepath.Clean(sub) != filepath.Clean(vdir) {
				if _, err := os.Stat(sub); err != nil {
					_ = os.MkdirAll(sub, 0755)
					t := "class UserTwo {\n\tx Nothing\n\ty []Nothing\n}\nclass Nothing {\n}\n" +
						"resource Root {\n\tlocator Loc {\n\t\ttarget Nobody\n\t}\n}\nresource Nobody {\n}\n"
					_ = os.WriteFile(filepath.Join(sub, "x.model"), []byte(t), 0644)
					text += "==> " + sub + "/x.model\n" + t
				}
			}
		}
		if extra != "" {
			name := h.Pick("a.model", "f0.model", "zz.model")
			f, err := os.OpenFile(filepath.Join(vdir, name), os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0644)
			if err != nil {
				h.Fail("harness", "%v", err)
				return
			}
			_, _ = f.WriteString("\n" + extra)
			_ = f.Close()
			text += fmt.Sprintf("==> added to %s of %s\n%s", name, vdir, extra)
		}
		kinds[fault]++
		h.Case(fault+"\n"+text, func() {
			r := model.Read(dir)
			h.True("rejected: "+fault, r.Err != nil && r.Model == nil && r.Count > 0, "accepted with %d errors", r.Count)
		})
	}
	h.Bound("%d models with one fault: %v", n, kinds)
}

// garbled: valid models with some words removed, repeated or exchanged. They can still be valid, but the reader
// always gives either a model and no errors, or errors and no model.
func garbled(h *H) {
	dir := filepath.Join(h.Scratch, "model")
	g := &model.Gen{R: h.Rand, Size: 3, Plain: true}
	n := h.N(400, 8000)
	rejected := 0
	for i := 0; i < n; i++ {
		m := g.Model()
		if _, ok := write(h, m, dir); !ok {
			return
		}
		s := m.Services[h.Rand.Intn(len(m.Services))]
		v := s.Versions[h.Rand.Intn(len(s.Versions))]
		f := filepath.Join(dir, s.Name.String(), v.Name.String(), "f0.model")
		data, err := os.ReadFile(f)
		if err != nil {
			continue
		}
		words := strings.SplitAfter(string(data), " ")
		if h.Rand.Intn(2) == 0 {
			words = strings.SplitAfter(string(data), "\n")
		}
		for k := 1 + h.Rand.Intn(3); k > 0 && len(words) > 1; k-- {
			j := h.Rand.Intn(len(words))
			switch h.Rand.Intn(4) {
			case 0:
				words = append(words[:j], words[j+1:]...)
			case 1:
				words[j] += words[j]
			case 2:
				o := h.Rand.Intn(len(words))
				words[j], words[o] = words[o], words[j]
			case 3:
				words = words[:j+1]
			}
		}
		text := strings.Join(words, "")
		_ = os.WriteFile(f, []byte(text), 0644)
		h.Case("garbled f0.model\n"+text, func() {
			r := model.Read(dir)
			if r.Err != nil {
				rejected++
			}
			h.True("garbled: errors or a model, not both", (r.Err != nil) == (r.Count > 0) && (r.Err != nil) == (r.Model == nil), "error %v, %d reported, model %v", r.Err, r.Count, r.Model != nil)
		})
	}
	h.Bound("%d garbled models, %d of them rejected", n, rejected)
}

// references: a class that refers to a type of another service gets its attributes, and the types
// that it needs.
func references(h *H) {
	dir := filepath.Join(h.Scratch, "model")
	for i := 0; i < h.N(60, 1500); i++ {
		// types of the other service, where each one only uses the previous ones:
		var types []*model.Type
		k := 2 + h.Rand.Intn(4)
		for j := 0; j < k; j++ {
			t := &model.Type{Decl: model.Decl{Name: model.N([]string{"alpha", "beta", "gamma", "delta", "omega", "sigma"}[j])}, Kind: "class"}
			for a := 0; a < 1+h.Rand.Intn(3); a++ {
				r := model.Plain(model.Builtins[h.Rand.Intn(len(model.Builtins))])
				if j > 0 && h.Rand.Intn(2) == 0 {
					r = model.Ref{Kind: h.Pick("plain", "list", "map"), Index: model.N("string"), Element: types[h.Rand.Intn(j)].Name}
				}
				t.Attrs = append(t.Attrs, &model.Attr{Decl: model.Decl{Name: model.N([]string{"one", "two", "three"}[a])}, Ref: r})
			}
			types = append(types, t)
		}
		other := &model.Version{Name: model.N("v1"), Types: types, Resources: []*model.Resource{{Decl: model.Decl{Name: model.N("root")}}}}
		target := types[len(types)-1]
		mine := &model.Version{Name: model.N("v2"), Resources: []*model.Resource{{Decl: model.Decl{Name: model.N("root")}}}}
		mine.Types = []*model.Type{{Decl: model.Decl{Name: target.Name, Anns: []model.Ann{{Name: "ref", Params: []model.AnnParam{{Name: "path", Value: h.Pick("", "/") + "other_one/v1/" + target.Name.String()}}}}}, Kind: "class"}}
		m := &model.Model{Services: []*model.Service{
			{Name: model.N(h.Pick("aaa", "zzz")), Versions: []*model.Version{mine}},
			{Name: model.N("other_one"), Versions: []*model.Version{other}},
		}}
		text, ok := write(h, m, dir)
		if !ok {
			return
		}
		h.Case(text, func() {
			r := model.Read(dir)
			if !h.True("references to other services are resolved", r.Err == nil, "%v %s", r.Err, r.Errors) {
				return
			}
			svc := r.Model.FindService(names.ParseUsingSeparator(m.Services[0].Name.String(), "_"))
			ver := svc.FindVersion(names.ParseUsingSeparator("v2", "_"))
			var need func(t *model.Type)
			seen := map[string]bool{}
			need = func(t *model.Type) {
				if seen[t.Name.String()] {
					return
				}
				seen[t.Name.String()] = true
				got := ver.FindType(names.ParseUsingSeparator(t.Name.String(), "_"))
				if !h.True("the types that a reference needs are in the version", got != nil && got.Owner() == ver, "%s", t.Name) {
					return
				}
				h.True("the types that a reference needs have their attributes", attrs(got) == want(t), "%s: %s, expected %s", t.Name, attrs(got), want(t))
				for _, a := range t.Attrs {
					for _, x := range types {
						if x.Name.String() == a.Ref.Element.String() {
							need(x)
						}
					}
				}
			}
			need(target)
			// the referred version isn't changed:
			o := r.Model.FindService(names.ParseUsingSeparator("other_one", "_")).FindVersion(names.ParseUsingSeparator("v1", "_"))
			for _, t := range types {
				got := o.FindType(names.ParseUsingSeparator(t.Name.String(), "_"))
				h.True("the referenced version isn't changed", got != nil && got.Owner() == o && attrs(got) == want(t), "%s", t.Name)
			}
		})
	}
	bad := []string{"other_one/v1/nothing", "other_one/v9/alpha", "nobody/v1/alpha", "alpha", "v1/alpha", "a/b/c/d"}
	for _, p := range bad {
		files := map[string]string{
			"mine/v1/x.model":      fmt.Sprintf("@ref(path = \"%s\")\nclass Alpha {\n}\nresource Root {\n}\n", p),
			"other_one/v1/x.model": "class Alpha {\n\tx String\n}\nresource Root {\n}\n",
		}
		if err := model.Files(dir, files); err != nil {
			h.Fail("harness", "%v", err)
			return
		}
		h.Case(fmt.Sprint(files), func() {
			r := model.Read(dir)
			h.True("references that can't be resolved are rejected", r.Err != nil && r.Count > 0, "accepted")
		})
	}
}

func attrs(t *concepts.Type) string {
	r := ""
	for _, a := range t.Attributes() {
		n := "nil"
		if a.Type() != nil {
			n = a.Type().Name().String()
		}
		r += fmt.Sprintf("%s:%s ", a.Name(), n)
	}
	return r
}

func want(t *model.Type) string {
	r := ""
	l := append([]*model.Attr{}, t.Attrs...)
	for i := range l {
		for j := i + 1; j < len(l); j++ {
			if model.Less(l[j].Name, l[i].Name) {
				l[i], l[j] = l[j], l[i]
			}
		}
	}
	for _, a := range l {
		r += fmt.Sprintf("%s:%s ", a.Name, a.Ref.Name())
	}
	return r
}
