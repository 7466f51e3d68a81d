// Program that generates the code of a model and leaves it in the scratch directory, for the verifier.
package main

import (
	"os"
	"path/filepath"

	"verifharness/gen"
	. "verifharness/h"
)

func main() { Main(run) }

func run(h *H) {
	p := gen.Generate(h, gen.Verified(), "generated")
	if p == nil {
		return
	}
	// The program that exercises the code isn't verified:
	_ = os.RemoveAll(filepath.Join(p.Dir, "code", "child"))
}
