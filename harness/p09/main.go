// Harness of the tree of locators: models are rejected exactly when following locators from the root
// comes back to a resource, and the paths are all the ways from the root.
package main

import (
	"fmt"
	"path/filepath"
	"sort"
	"strings"

	. "verifharness/h"
	"verifharness/model"
)

func main() { Main(run) }

type graph struct {
	names []model.ID
	edges [][]int
}

// cyclic tells if a resource reachable from the first one is in a cycle.
func (g *graph) cyclic() bool {
	state := make([]int, len(g.edges))
	var visit func(i int) bool
	visit = func(i int) bool {
		if state[i] == 1 {
			return true
		}
		if state[i] == 2 {
			return false
		}
		state[i] = 1
		for _, j := range g.edges[i] {
			if visit(j) {
				return true
			}
		}
		state[i] = 2
		return false
	}
	return visit(0)
}

// walks returns all the ways from the first resource, as texts.
func (g *graph) walks() (l []string) {
	var visit func(i int, at string)
	visit = func(i int, at string) {
		for k, j := range g.edges[i] {
			here := fmt.Sprintf("%s/%s.loc_%s>%s", at, g.names[i], letter(k), g.names[j])
			l = append(l, here)
			visit(j, here)
		}
	}
	visit(0, "")
	sort.Strings(l)
	return
}

func (g *graph) version() *model.Version {
	v := &model.Version{Name: model.N("v1")}
	for i, n := range g.names {
		r := &model.Resource{Decl: model.Decl{Name: n}}
		for k, j := range g.edges[i] {
			r.Locators = append(r.Locators, &model.Locator{Decl: model.Decl{Name: model.N("loc_" + letter(k))}, Target: g.names[j], Variable: k == 0 && i%2 == 1})
		}
		v.Resources = append(v.Resources, r)
	}
	return v
}

var pool = []string{"root", "clusters", "cluster", "nodes", "node", "AWS_quota", "users"}

func named(n int) (l []model.ID) {
	for i := 0; i < n; i++ {
		l = append(l, model.N(pool[i]))
	}
	return
}

func check(h *H, g *graph, dir string, other *graph) {
	m := &model.Model{}
	svc := &model.Service{Name: model.N("mgmt"), Versions: []*model.Version{g.version()}}
	m.Services = []*model.Service{svc}
	cyclic := g.cyclic()
	if other != nil {
		v := other.version()
		v.Name = model.N("v2")
		svc.Versions = append(svc.Versions, v)
		cyclic = cyclic || other.cyclic()
	}
	if err := model.Clean(dir); err != nil {
		h.Fail("harness", "%v", err)
		return
	}
	text, err := model.Style{Rand: h.Rand}.Write(m, dir)
	if err != nil {
		h.Fail("harness", "%v", err)
		return
	}
	h.Case(text, func() {
		r := model.Read(dir)
		if cyclic {
			h.True("loops that the root reaches are rejected", r.Err != nil && r.Count > 0, "accepted: %s", r.Errors)
			return
		}
		if !h.True("models without reachable loops are accepted", r.Err == nil && r.Count == 0, "%v %s", r.Err, r.Errors) {
			return
		}
		for _, v := range r.Model.Services()[0].Versions() {
			want := g.walks()
			if v.Name().String() == "v2" {
				want = other.walks()
			}
			var got []string
			for _, p := range v.Paths() {
				t := ""
				for _, l := range p {
					t += fmt.Sprintf("/%s.%s>%s", l.Owner().Name(), l.Name(), l.Target().Name())
				}
				got = append(got, t)
			}
			sort.Strings(got)
			h.True("the paths are all the ways from the root, each once", strings.Join(got, "\n") == strings.Join(want, "\n"),
				"got:\n%s\nexpected:\n%s", strings.Join(got, "\n"), strings.Join(want, "\n"))
		}
	})
}

func run(h *H) {
	dir := filepath.Join(h.Scratch, "model")
	// All the graphs of three resources where each one has at most one locator to each other,
	// loops to itself included:
	n := 3
	for bits := 0; bits < 1<<(n*n); bits++ {
		if h.Tier == "quick" && bits%2 == 0 && bits > 64 {
			continue
		}
		g := &graph{names: named(n), edges: make([][]int, n)}
		for i := 0; i < n*n; i++ {
			if bits&(1<<i) != 0 {
				g.edges[i/n] = append(g.edges[i/n], i%n)
			}
		}
		check(h, g, dir, nil)
	}
	random := func(loops bool) *graph {
		k := 2 + h.Rand.Intn(6)
		g := &graph{names: named(k), edges: make([][]int, k)}
		// the order in which the resources may be reached isn't the one of the names
		order := append([]int{0}, h.Rand.Perm(k)...)
		at := map[int]int{}
		for i, x := range order[1:] {
			at[x] = i + 1
		}
		at[0] = 0
		for i := 0; i < k; i++ {
			for j := 0; j < k; j++ {
				if i != j && at[i] < at[j] && h.Rand.Intn(k) < 2 {
					g.edges[i] = append(g.edges[i], j)
					if h.Rand.Intn(8) == 0 {
						g.edges[i] = append(g.edges[i], j)
					}
				}
			}
		}
		if loops {
			for c := 1 + h.Rand.Intn(2); c > 0; c-- {
				i, j := h.Rand.Intn(k), h.Rand.Intn(k)
				g.edges[i] = append(g.edges[i], j)
			}
		}
		return g
	}
	count := h.N(1200, 20000)
	for i := 0; i < count; i++ {
		var other *graph
		if h.Rand.Intn(4) == 0 {
			other = random(h.Rand.Intn(2) == 0)
		}
		check(h, random(h.Rand.Intn(2) == 0), dir, other)
		if h.Failed() {
			break
		}
	}
	h.Bound("graphs of up to 7 resources: those of 3 resources enumerated, %d random ones", count)
}

func letter(k int) string { return strings.Repeat("x", k+1) }
