// Harness of the generated code: json.
package main

import (
	"fmt"

	"verifharness/gen"
	. "verifharness/h"
	"verifharness/model"
)

func main() { Main(run) }

func run(h *H) {
	p := gen.Generate(h, gen.Rich(), "rich")
	if p != nil {
		p.Check(h, "json", h.N(60, 1000))
		p.Remove()
	}
	for i := 0; i < h.N(2, 12); i++ {
		m := (&model.Gen{R: h.Rand, Size: 8, Go: true}).Model()
		p := gen.Generate(h, m, fmt.Sprintf("m%d", i))
		if p != nil {
			p.Check(h, "json", h.N(60, 500))
			p.Remove()
		}
	}
	h.Bound("one model with attributes of all the kinds in classes and structs of up to 64 flags, %d random models, %d random objects per type", h.N(2, 12), h.N(60, 1000))
}
