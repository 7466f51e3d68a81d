// Package gen generates Go code from models described independently, compiles it together with a
// program that exercises it, and runs it.
package gen

import (
	"embed"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"time"

	. "verifharness/h"
	"verifharness/model"
)

//go:embed *.txt
var sources embed.FS

// Base is the base package of the generated code.
const Base = "example.com/api"

var tool string

// Tool builds the tool from the repository, and returns its path.
func Tool(h *H) (string, error) {
	if tool != "" {
		return tool, nil
	}
	bin := filepath.Join(h.Scratch, "metamodel")
	cmd := exec.Command("go", "build", "-o", bin, "./cmd/metamodel")
	cmd.Dir = "/repo"
	cmd.Env = append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOWORK=off", "GOTOOLCHAIN=local", "CGO_ENABLED=0", "PATH=/opt/vp/bin:"+os.Getenv("PATH"))
	if out, err := cmd.CombinedOutput(); err != nil {
		return "", fmt.Errorf("%v: %s", err, out)
	}
	tool = bin
	return bin, nil
}

// Run runs the tool.
func Run(h *H, dir string, args ...string) (int, string, error) {
	bin, err := Tool(h)
	if err != nil {
		return -1, "", err
	}
	cmd := exec.Command(bin, args...)
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), "GOFLAGS=", "GOPROXY=off", "GOWORK=off", "GOTOOLCHAIN=local", "CGO_ENABLED=0", "PATH=/opt/vp/bin:"+os.Getenv("PATH"))
	out, err := cmd.CombinedOutput()
	if err == nil {
		return 0, string(out), nil
	}
	if x, ok := err.(*exec.ExitError); ok {
		return x.ExitCode(), string(out), nil
	}
	return -1, string(out), err
}

// ---- description ----

// These types are those of the child program.
type (
	Ref struct {
		Kind, Name string
		Elem       *Ref
	}
	At struct {
		Name, Go, JSON string
		Ref            Ref
		Link           bool
	}
	Va struct{ Go, JSON string }
	Ty struct {
		Name, Go, Camel, Kind string
		Attrs                 []At
		Values                []Va
	}
	Pa struct {
		Name, Go, Query, Body string
		Ref                   Ref
		In, Out, Main         bool
	}
	Me struct {
		Name, Go, HTTP, Segment string
		Action                  bool
		Params                  []Pa
	}
	Lo struct {
		Go, Segment, Target string
		Variable            bool
	}
	Re struct {
		Name, Go string
		Root     bool
		Methods  []Me
		Locators []Lo
	}
	Er struct {
		Go   string
		Code int
	}
	Ve struct {
		Key, Service, Go, Method, Segment, Root string
		Types                                   []Ty
		Resources                               []Re
		Errors                                  []Er
	}
)

func or(l ...string) string {
	for _, s := range l {
		if s != "" {
			return s
		}
	}
	return ""
}

func goName(d *model.Decl) string { return or(d.Ann("go", "name"), d.Name.Camel()) }

// RefOf describes a reference.
func RefOf(v *model.Version, r model.Ref) Ref {
	switch r.Kind {
	case "list", "map":
		e := RefOf(v, model.Ref{Kind: "plain", Element: r.Element})
		return Ref{Kind: r.Kind, Elem: &e}
	}
	switch k := v.Kind(r); k {
	case "scalar", "interface":
		return Ref{Kind: r.Element.String()}
	default:
		return Ref{Kind: k, Name: r.Element.Snake()}
	}
}

var verbs = map[string]string{"add": "POST", "delete": "DELETE", "async_delete": "DELETE", "get": "GET", "list": "GET", "post": "POST",
	"search": "POST", "update": "PATCH", "async_update": "PATCH"}

// Describe describes the model.
func Describe(m *model.Model) []*Ve {
	var r []*Ve
	for _, s := range m.Services {
		for _, v := range s.Versions {
			pkg := strings.ToLower(strings.Join(v.Name, ""))
			d := &Ve{Key: s.Name.String() + "/" + v.Name.String(), Service: strings.ToLower(strings.Join(s.Name, "")), Go: pkg,
				Method: v.Name.Camel(), Segment: v.Name.Snake()}
			for _, t := range v.Types {
				x := Ty{Name: t.Name.Snake(), Go: goName(&t.Decl), Camel: t.Name.Camel(), Kind: t.Kind}
				attrs := append([]*model.Attr{}, t.Attrs...)
				sort.Slice(attrs, func(i, j int) bool { return model.Less(attrs[i].Name, attrs[j].Name) })
				for _, a := range attrs {
					x.Attrs = append(x.Attrs, At{Name: a.Name.Snake(), Go: goName(&a.Decl), JSON: or(a.Ann("json", "name"), a.Name.Snake()), Ref: RefOf(v, a.Ref), Link: a.Link})
				}
				for _, a := range t.Values {
					x.Values = append(x.Values, Va{Go: x.Go + goName(&a.Decl), JSON: or(a.Ann("json", "name"), a.Name.Snake())})
				}
				d.Types = append(d.Types, x)
			}
			for _, res := range v.Resources {
				x := Re{Name: res.Name.Snake(), Go: goName(&res.Decl), Root: res.Name.Snake() == "root"}
				for _, me := range res.Methods {
					y := Me{Name: me.Name.Snake(), Go: goName(&me.Decl), HTTP: verbs[me.Name.Snake()]}
					if y.HTTP == "" {
						y.HTTP = "POST"
						y.Action = true
						y.Segment = or(me.Ann("http", "name"), me.Name.Snake())
					}
					for _, p := range me.Params {
						n := p.Name.Snake()
						y.Params = append(y.Params, Pa{Name: n, Go: goName(&p.Decl), Query: or(p.Ann("http", "name"), p.Ann("json", "name"), n),
							Body: or(p.Ann("json", "name"), n), Ref: RefOf(v, p.Ref), In: p.In, Out: p.Out, Main: n == "body" || n == "items"})
					}
					x.Methods = append(x.Methods, y)
				}
				for _, l := range res.Locators {
					x.Locators = append(x.Locators, Lo{Go: goName(&l.Decl), Segment: or(l.Ann("http", "name"), l.Name.Snake()), Target: l.Target.Snake(), Variable: l.Variable})
				}
				d.Resources = append(d.Resources, x)
			}
			for _, e := range v.Errors {
				d.Errors = append(d.Errors, Er{Go: goName(&e.Decl) + "Error", Code: e.Code})
			}
			r = append(r, d)
		}
	}
	return r
}

func registry(ds []*Ve) string {
	b := &strings.Builder{}
	b.WriteString("package main\n\nimport (\n")
	services := map[string]bool{}
	for i, d := range ds {
		fmt.Fprintf(b, "\tp%d \"%s/%s/%s\"\n", i, Base, d.Service, d.Go)
		services[d.Service] = true
	}
	for _, s := range Keys(services) {
		fmt.Fprintf(b, "\tsvc_%s \"%s/%s\"\n", s, Base, s)
	}
	b.WriteString(")\n\nvar registry = map[string]map[string]interface{}{\n")
	for i, d := range ds {
		fmt.Fprintf(b, "\t%q: {\n", d.Key)
		fmt.Fprintf(b, "\t\t\"NewClient\": svc_%s.NewClient,\n", d.Service)
		reg := func(name string) { fmt.Fprintf(b, "\t\t%q: p%d.%s,\n", name, i, name) }
		con := func(name string) { fmt.Fprintf(b, "\t\t%q: p%d.%s,\n", "const "+name, i, name) }
		both := func(name string) {
			reg("Marshal" + name)
			reg("Unmarshal" + name)
		}
		both("Metadata")
		for _, n := range []string{"Boolean", "Integer", "Long", "Float", "String", "Date"} {
			both(n + "List")
		}
		for _, t := range d.Types {
			both(t.Camel + "List")
			if t.Kind == "enum" {
				for _, v := range t.Values {
					con(v.Go)
				}
				continue
			}
			both(t.Go)
			reg("New" + t.Go)
			reg("New" + t.Go + "List")
			if t.Kind == "class" {
				con(t.Go + "Kind")
				con(t.Go + "LinkKind")
				con(t.Go + "NilKind")
				con(t.Go + "ListKind")
				con(t.Go + "ListLinkKind")
				con(t.Go + "ListNilKind")
			}
		}
		for _, e := range d.Errors {
			con(e.Go)
		}
		b.WriteString("\t},\n")
	}
	b.WriteString("}\n")
	return b.String()
}

// Project is generated code.
type Project struct {
	Dir  string
	Text string
	bin  string
	desc string
}

// Generate generates the code for the given model, and compiles it. It returns nil, and reports why, when that isn't possible.
func Generate(h *H, m *model.Model, name string) *Project {
	p := &Project{Dir: filepath.Join(h.Scratch, name)}
	src := filepath.Join(p.Dir, "model")
	if err := model.Clean(p.Dir); err != nil {
		h.Fail("harness", "%v", err)
		return nil
	}
	text, err := model.Style{}.Write(m, src)
	if err != nil {
		h.Fail("harness", "%v", err)
		return nil
	}
	p.Text = text
	var ok *Project
	h.Case(text, func() {
		out := filepath.Join(p.Dir, "code")
		// The module has to exist, because it is used to calculate the imports:
		if err := p.files(m, out); err != nil {
			h.Fail("harness", "%v", err)
			return
		}
		rc, log, err := Run(h, out, "generate", "go", "--model", src, "--base", Base, "--output", out)
		if err != nil {
			h.Fail("harness", "%v", err)
			return
		}
		if !h.True("code is generated for valid models", rc == 0, "exit code %d: %s", rc, log) {
			return
		}
		if err := p.module(out); err != nil {
			h.Fail("harness", "%v", err)
			return
		}
		p.bin = filepath.Join(p.Dir, "child")
		log, err = goCmd(out, "build", "-o", p.bin, "./child")
		if h.True("the generated code compiles, and has what the model describes", err == nil, "%v: %s", err, log) {
			ok = p
		}
	})
	return ok
}

func (p *Project) module(out string) error {
	mod, err := os.ReadFile("/repo/tests/go/go.mod")
	if err != nil {
		return err
	}
	sum, err := os.ReadFile("/repo/tests/go/go.sum")
	if err != nil {
		return err
	}
	// Only the dependencies of the generated code, because the others aren't completely available:
	var lines []string
	for _, l := range strings.Split(string(mod), "\n") {
		if strings.HasPrefix(l, "module ") {
			l = "module " + Base
		}
		if strings.Contains(l, " v") && !strings.Contains(l, "glog") && !strings.Contains(l, "json-iterator") && !strings.Contains(l, "modern-go") && !strings.Contains(l, "prometheus") {
			continue
		}
		lines = append(lines, l)
	}
	if err := os.WriteFile(filepath.Join(out, "go.mod"), []byte(strings.Join(lines, "\n")), 0644); err != nil {
		return err
	}
	return os.WriteFile(filepath.Join(out, "go.sum"), sum, 0644)
}

func (p *Project) files(m *model.Model, out string) error {
	if err := os.MkdirAll(out, 0755); err != nil {
		return err
	}
	// While the code is generated the module has no dependencies, because then the tool that calculates the imports doesn't need
	// the network:
	if err := os.WriteFile(filepath.Join(out, "go.mod"), []byte("module "+Base+"\n\ngo 1.17\n"), 0644); err != nil {
		return err
	}
	child := filepath.Join(out, "child")
	if err := os.MkdirAll(child, 0755); err != nil {
		return err
	}
	entries, err := sources.ReadDir(".")
	if err != nil {
		return err
	}
	for _, e := range entries {
		data, err := sources.ReadFile(e.Name())
		if err != nil {
			return err
		}
		if err := os.WriteFile(filepath.Join(child, strings.TrimSuffix(e.Name(), ".txt")), data, 0644); err != nil {
			return err
		}
	}
	ds := Describe(m)
	if err := os.WriteFile(filepath.Join(child, "registry.go"), []byte(registry(ds)), 0644); err != nil {
		return err
	}
	data, err := json.Marshal(ds)
	if err != nil {
		return err
	}
	p.desc = filepath.Join(p.Dir, "desc.json")
	return os.WriteFile(p.desc, data, 0644)
}

func goCmd(dir string, args ...string) (string, error) {
	cmd := exec.Command("go", args...)
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOWORK=off", "GOTOOLCHAIN=local", "CGO_ENABLED=0", "PATH=/opt/vp/bin:"+os.Getenv("PATH"))
	out, err := cmd.CombinedOutput()
	return string(out), err
}

// Check runs the program that exercises the generated code, and collects what it says.
func (p *Project) Check(h *H, mode string, n int) {
	file := filepath.Join(p.Dir, "result-"+mode+".json")
	h.Case(p.Text, func() {
		cmd := exec.Command(p.bin, "-mode", mode, "-n", fmt.Sprint(n), "-seed", fmt.Sprint(h.Seed), "-desc", p.desc, "-out", file)
		cmd.Dir = p.Dir
		out := &strings.Builder{}
		cmd.Stdout, cmd.Stderr = out, out
		if err := cmd.Start(); err != nil {
			h.Fail("harness", "%v", err)
			return
		}
		done := make(chan error, 1)
		go func() { done <- cmd.Wait() }()
		var err error
		select {
		case err = <-done:
		case <-time.After(50 * time.Second):
			_ = cmd.Process.Kill()
			err = fmt.Errorf("no answer")
		}
		if !h.True("the generated code runs", err == nil, "%v: %s", err, out) {
			return
		}
		data, err := os.ReadFile(file)
		if err != nil {
			h.Fail("harness", "%v", err)
			return
		}
		var r struct {
			Clauses  map[string]int
			Distinct int
			Samples  []string
			Failures []struct{ Clause, Input, Detail string }
		}
		if err := json.Unmarshal(data, &r); err != nil {
			h.Fail("harness", "%v", err)
			return
		}
		h.Merge(r.Clauses, r.Distinct, r.Samples)
		for _, f := range r.Failures {
			h.Report(f.Clause, f.Input+"\n"+p.Text, f.Detail)
		}
	})
}

// Remove removes the generated code.
func (p *Project) Remove() { _ = os.RemoveAll(p.Dir) }
