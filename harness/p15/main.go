// Harness of the generated code: clients.
package main

import (
	"fmt"

	"verifharness/gen"
	. "verifharness/h"
	"verifharness/model"
)

func main() { Main(run) }

func run(h *H) {
	for i := 0; i < h.N(3, 16); i++ {
		m := gen.RichClients()
		if i > 0 {
			m = (&model.Gen{R: h.Rand, Size: 10, Go: true}).Model()
		}
		p := gen.Generate(h, m, fmt.Sprintf("m%d", i))
		if p != nil {
			p.Check(h, "clients", h.N(30, 300))
			if i == 0 {
				p.Check(h, "errors", h.N(40, 400))
			}
			p.Remove()
		}
	}
	h.Bound("one model with methods of all the kinds, %d random models, %d random calls of every method", h.N(2, 15), h.N(30, 300))
}
