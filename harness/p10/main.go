// Harness of the reporting of errors: errors are counted and written, and nothing goes on after them.
package main

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"

	"github.com/openshift-online/ocm-api-metamodel/pkg/language"
	"github.com/openshift-online/ocm-api-metamodel/pkg/names"
	"github.com/openshift-online/ocm-api-metamodel/pkg/reporter"

	. "verifharness/h"
	"verifharness/model"
)

func main() { Main(run) }

func run(h *H) {
	reporting(h)
	gating(h)
	commands(h)
}

func reporting(h *H) {
	for i := 0; i < h.N(300, 5000); i++ {
		var out, err bytes.Buffer
		r, e := reporter.New().Streams(&out, &err).Build()
		if e != nil {
			h.Fail("reporters are created", "%v", e)
			return
		}
		errors, others := 0, 0
		text := ""
		var wantErr, wantOut []string
		n := 1 + h.Rand.Intn(12)
		for k := 0; k < n; k++ {
			format, args, want := "plain", []interface{}{}, "plain"
			switch h.Rand.Intn(5) {
			case 0:
				format, args, want = "value '%s' %d", []interface{}{"x y", k}, fmt.Sprintf("value 'x y' %d", k)
			case 1:
				format, args, want = "name '%s'", []interface{}{names.ParseUsingSeparator("my_name", "_")}, "name 'MyName'"
			case 2:
				format, args, want = "error %v", []interface{}{fmt.Errorf("inner")}, "error inner"
			case 3:
				format, args, want = "100%% of %q", []interface{}{"a"}, "100% of \"a\""
			}
			switch h.Rand.Intn(3) {
			case 0:
				text += "E"
				errors++
				wantErr = append(wantErr, want)
				got := r.Errorf(format, args...)
				h.Case(text, func() {
					h.True("the error returned is the one reported", got != nil && got.Error() == want, "%v, expected %s", got, want)
				})
			case 1:
				text += "I"
				others++
				wantOut = append(wantOut, want)
				r.Infof(format, args...)
			case 2:
				text += "W"
				others++
				wantOut = append(wantOut, want)
				r.Warnf(format, args...)
			}
		}
		h.Case(text, func() {
			h.True("every error is counted, and nothing else", r.Errors() == errors, "%d, expected %d", r.Errors(), errors)
			check := func(clause, got string, want []string) {
				lines := strings.Split(strings.TrimSuffix(got, "\n"), "\n")
				if got == "" {
					lines = nil
				}
				ok := len(lines) == len(want)
				for j := 0; ok && j < len(want); j++ {
					ok = strings.HasSuffix(lines[j], want[j])
				}
				h.True(clause, ok, "%q, expected %q", got, want)
			}
			check("every error is written once to the error stream", err.String(), wantErr)
			check("other messages go to the output stream", out.String(), wantOut)
		})
	}
}

// broken returns a model that has to be rejected.
func broken(h *H, dir string) (string, []string) {
	m := (&model.Gen{R: h.Rand, Size: 3}).Model()
	text, err := model.Style{Rand: h.Rand}.Write(m, dir)
	if err != nil {
		return "", nil
	}
	svc := m.Services[h.Rand.Intn(len(m.Services))]
	v := svc.Versions[h.Rand.Intn(len(svc.Versions))]
	vdir := filepath.Join(dir, svc.Name.String(), v.Name.String())
	bad := []string{
		"class Missing {\n\tx Nothing\n}\n",
		"class Broken {\n",
		"resource Orphan {\n\tget {\n\t\tout body String\n\t}\n}\n",
		"$$$\n",
		"class Twice {\n}\nclass Twice {\n}\n",
		"resource Ghosts {\n\tlocator Ghost {\n\t\ttarget Nobody\n\t}\n}\n",
		"error Twin {\n\tcode 1\n}\nerror Twin {\n\tcode 2\n}\n",
		"class Listed {\n\tlink x []Nothing\n\ty [String]Never\n}\n",
		"enum Two {\n\tOne\n}\nenum Two {\n\tOne\n}\n",
		"}",
	}
	b := bad[h.Rand.Intn(len(bad))]
	name := h.Pick("a.model", "zz.model")
	if h.Rand.Intn(8) == 0 {
		return text + "\nand a missing directory", []string{dir, filepath.Join(dir, "missing")}
	}
	_ = os.WriteFile(filepath.Join(vdir, name), []byte(b), 0644)
	return text + "==> " + name + "\n" + b, []string{dir}
}

func gating(h *H) {
	dir := filepath.Join(h.Scratch, "model")
	for i := 0; i < h.N(200, 4000); i++ {
		if err := model.Clean(dir); err != nil {
			h.Fail("harness", "%v", err)
			return
		}
		valid := h.Rand.Intn(2) == 0
		text, inputs := "", []string{dir}
		if valid {
			m := (&model.Gen{R: h.Rand, Size: 3}).Model()
			t, err := model.Style{Rand: h.Rand}.Write(m, dir)
			if err != nil {
				h.Fail("harness", "%v", err)
				return
			}
			text = t
		} else {
			text, inputs = broken(h, dir)
		}
		before := 0
		if h.Rand.Intn(4) == 0 {
			before = 1 + h.Rand.Intn(2)
		}
		h.Case(fmt.Sprintf("%d errors before\n%s", before, text), func() {
			var out, err bytes.Buffer
			r, e := reporter.New().Streams(&out, &err).Build()
			if e != nil {
				h.Fail("reporters are created", "%v", e)
				return
			}
			for k := 0; k < before; k++ {
				r.Errorf("before")
			}
			m, e := language.NewReader().Reporter(r).Inputs(inputs).Read()
			h.True("a model is given exactly when there is no error", (m == nil) == (e != nil), "%v %v", m != nil, e)
			h.True("a model is given exactly when no error was reported", (e == nil) == (r.Errors() == 0), "%v with %d errors", e, r.Errors())
			lines := 0
			if err.Len() > 0 {
				lines = strings.Count(err.String(), "\n")
			}
			h.True("the count of errors is that of the messages", lines == r.Errors(), "%d, expected %d\n%s", r.Errors(), lines, err.String())
			if valid && before == 0 {
				h.True("valid models are given", e == nil, "%v %s", e, err.String())
			} else {
				h.True("invalid models aren't given", e != nil, "accepted")
			}
		})
	}
	h.Case("no reporter", func() {
		m, e := language.NewReader().Inputs([]string{dir}).Read()
		h.True("the reporter is mandatory", m == nil && e != nil, "%v", e)
	})
}

func entries(dir string) (l []string) {
	_ = filepath.Walk(dir, func(path string, info os.FileInfo, err error) error {
		if err == nil && path != dir {
			l = append(l, path)
		}
		return nil
	})
	return
}

func commands(h *H) {
	tool := filepath.Join(h.Scratch, "metamodel")
	build := exec.Command("go", "build", "-o", tool, "./cmd/metamodel")
	build.Dir = "/repo"
	if out, err := build.CombinedOutput(); err != nil {
		h.Bound("the tool doesn't build, the commands weren't tried: %s", out)
		return
	}
	exe := func(args ...string) (int, string) {
		c := exec.Command(tool, args...)
		c.Dir = h.Scratch
		out, err := c.CombinedOutput()
		if err == nil {
			return 0, string(out)
		}
		if x, ok := err.(*exec.ExitError); ok {
			return x.ExitCode(), string(out)
		}
		return -1, string(out) + err.Error()
	}
	dir := filepath.Join(h.Scratch, "model")
	output := filepath.Join(h.Scratch, "output")
	generate := [][]string{
		{"generate", "openapi"}, {"generate", "docs"}, {"generate", "go", "--base", "example.com/api"},
	}
	for i := 0; i < h.N(8, 60); i++ {
		valid := i%4 == 0
		if err := model.Clean(dir); err != nil {
			h.Fail("harness", "%v", err)
			return
		}
		text, inputs := "", []string{dir}
		if valid {
			m := (&model.Gen{R: h.Rand, Size: 3}).Model()
			text, _ = model.Style{Rand: h.Rand}.Write(m, dir)
		} else {
			text, inputs = broken(h, dir)
		}
		var models []string
		for _, in := range inputs {
			models = append(models, "--model", in)
		}
		h.Case("check\n"+text, func() {
			rc, out := exe(append([]string{"check"}, models...)...)
			h.True("check succeeds exactly for valid models", (rc == 0) == valid, "exit code %d\n%s", rc, out)
		})
		for _, g := range generate {
			_ = os.RemoveAll(output)
			h.Case(strings.Join(g, " ")+"\n"+text, func() {
				args := append(append(append([]string{}, g...), models...), "--output", output)
				rc, out := exe(args...)
				if valid {
					h.True("generation succeeds for valid models", rc == 0, "exit code %d\n%s", rc, out)
					h.True("generation writes files for valid models", len(entries(output)) > 0, "nothing written")
				} else {
					h.True("generation fails for invalid models", rc != 0, "exit code %d\n%s", rc, out)
					h.True("nothing is written for invalid models", len(entries(output)) == 0, "%v", entries(output))
				}
			})
			if valid && i == 0 {
				// an output that can't be written:
				_ = os.RemoveAll(output)
				file := filepath.Join(h.Scratch, "file")
				_ = os.WriteFile(file, []byte("x"), 0644)
				h.Case(strings.Join(g, " ")+" to a directory that can't be created\n"+text, func() {
					args := append(append(append([]string{}, g...), models...), "--output", filepath.Join(file, "sub"))
					rc, out := exe(args...)
					h.True("generation fails when the output can't be written", rc != 0, "exit code %d\n%s", rc, out)
				})
				for _, drop := range []string{"--model", "--output", "--base"} {
					full := append(append(append([]string{}, g...), models...), "--output", output)
					var args []string
					had := false
					for k := 0; k < len(full); k++ {
						if full[k] == drop {
							had = true
							k++
							continue
						}
						args = append(args, full[k])
					}
					if !had {
						continue
					}
					_ = os.RemoveAll(output)
					h.Case(strings.Join(args, " "), func() {
						rc, out := exe(args...)
						h.True("generation fails without a mandatory option", rc != 0, "exit code %d\n%s", rc, out)
						h.True("nothing is written without a mandatory option", len(entries(output)) == 0, "%v", entries(output))
					})
				}
			}
		}
	}
	h.Case("check without a model", func() {
		rc, _ := exe("check")
		h.True("check fails without a model", rc != 0, "exit code 0")
	})
	h.Bound("%d models for the commands, 3/4 of them invalid", h.N(8, 60))
}
