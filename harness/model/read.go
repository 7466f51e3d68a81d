package model

import (
	"bytes"
	"os"
	"path/filepath"
	"strings"

	"github.com/openshift-online/ocm-api-metamodel/pkg/concepts"
	"github.com/openshift-online/ocm-api-metamodel/pkg/language"
	"github.com/openshift-online/ocm-api-metamodel/pkg/reporter"
)

// Result is the result of reading a model.
type Result struct {
	Model  *concepts.Model
	Err    error
	Count  int
	Out    string
	Errors string
}

// Lines returns the lines of the error stream.
func (r *Result) Lines() []string {
	t := strings.TrimSuffix(r.Errors, "\n")
	if t == "" {
		return nil
	}
	return strings.Split(t, "\n")
}

// Read reads the model in the given directories.
func Read(dirs ...string) *Result {
	var out, err bytes.Buffer
	rep, e := reporter.New().Streams(&out, &err).Build()
	if e != nil {
		return &Result{Err: e}
	}
	r := &Result{}
	r.Model, r.Err = language.NewReader().Reporter(rep).Inputs(dirs).Read()
	r.Count = rep.Errors()
	r.Out = out.String()
	r.Errors = err.String()
	return r
}

// Files writes the given files, whose keys are paths, into the directory, that is cleaned before.
func Files(dir string, files map[string]string) error {
	if err := Clean(dir); err != nil {
		return err
	}
	for name, text := range files {
		p := filepath.Join(dir, name)
		if err := os.MkdirAll(filepath.Dir(p), 0755); err != nil {
			return err
		}
		if err := os.WriteFile(p, []byte(text), 0644); err != nil {
			return err
		}
	}
	return nil
}

// Clean removes and creates the directory.
func Clean(dir string) error {
	if err := os.RemoveAll(dir); err != nil {
		return err
	}
	return os.MkdirAll(dir, 0755)
}
