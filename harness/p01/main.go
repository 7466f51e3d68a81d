// Harness of the order and equality of names.
package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/openshift-online/ocm-api-metamodel/pkg/names"
	. "verifharness/h"
)

type word struct {
	text string
	init bool
}

func main() { Main(run) }

func build(l []word) *names.Name {
	words := make([]*names.Word, len(l))
	for i, w := range l {
		if w.init {
			words[i] = names.NewInitialism(w.text)
		} else {
			words[i] = names.NewWord(w.text)
		}
	}
	return names.NewName(words...)
}

func show(l []word) string {
	var p []string
	for _, w := range l {
		t := fmt.Sprintf("%q", w.text)
		if w.init {
			t += "!"
		}
		p = append(p, t)
	}
	return "[" + strings.Join(p, " ") + "]"
}

func eq(a, b []word) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func cmp(a, b []word) int {
	for i := 0; i < len(a) && i < len(b); i++ {
		if c := strings.Compare(a[i].text, b[i].text); c != 0 {
			return c
		}
	}
	switch {
	case len(a) < len(b):
		return -1
	case len(a) > len(b):
		return 1
	}
	return 0
}

func run(h *H) {
	// All the names with up to three words from a small vocabulary:
	vocab := []word{{"", false}, {"a", false}, {"ab", false}, {"ID", true}, {"ID", false}, {"b", false}}
	all := [][]word{nil}
	for from, n := 0, 0; n < 3; n++ {
		to := len(all)
		for _, p := range all[from:to] {
			for _, w := range vocab {
				all = append(all, append(append([]word{}, p...), w))
			}
		}
		from = to
	}
	if h.Tier == "quick" {
		h.Rand.Shuffle(len(all), func(i, j int) { all[i], all[j] = all[j], all[i] })
		all = all[:140]
	}
	h.Bound("names of up to 3 words from a vocabulary of 6 words, %d names, all pairs", len(all))
	objs := make([]*names.Name, len(all))
	for i, l := range all {
		objs[i] = build(l)
	}
	for i, a := range all {
		for j, b := range all {
			h.Case(show(a)+" "+show(b), func() {
				x, y := objs[i], objs[j]
				if i == j && h.Rand.Intn(2) == 0 {
					y = build(b)
				}
				h.Equal("equality compares words and initialism", x.Equals(y), eq(a, b))
				h.Equal("order is lexicographic by words", sign(names.Compare(x, y)), cmp(a, b))
			})
		}
	}
	h.Case("nil", func() {
		var none *names.Name
		h.Equal("nil names", none.Equals(nil), true)
		h.Equal("nil names", objs[0].Equals(nil), false)
		h.Equal("nil names", none.Equals(objs[0]), false)
		var now *names.Word
		h.Equal("nil words", now.Equals(nil), true)
		h.Equal("nil words", names.NewWord("a").Equals(nil), false)
		h.Equal("nil words", now.Equals(names.NewWord("a")), false)
	})
	// Random long names, and sorting:
	for k := 0; k < h.N(300, 20000); k++ {
		n := h.Rand.Intn(40)
		var lists [][]word
		var l names.Names
		for i := 0; i < n; i++ {
			m := h.Rand.Intn(7)
			w := []word{}
			for j := 0; j < m; j++ {
				w = append(w, vocab[h.Rand.Intn(len(vocab))])
			}
			lists = append(lists, w)
			l = append(l, build(w))
		}
		in := ""
		for _, w := range lists {
			in += show(w)
		}
		h.Case(in, func() {
			for i := 1; i < len(lists); i++ {
				h.Equal("order is lexicographic by words", sign(names.Compare(l[i-1], l[i])), cmp(lists[i-1], lists[i]))
				h.Equal("equality compares words and initialism", l[i-1].Equals(l[i]), eq(lists[i-1], lists[i]))
			}
			seen := map[*names.Name]int{}
			for _, x := range l {
				seen[x]++
			}
			sort.Sort(l)
			sorted := true
			for i, x := range l {
				seen[x]--
				if i > 0 && names.Compare(l[i-1], x) > 0 {
					sorted = false
				}
			}
			same := true
			for _, c := range seen {
				same = same && c == 0
			}
			h.True("sorting names orders them", sorted, "%v", l)
			h.True("sorting names keeps them", same, "%v", l)
			if len(l) > 2 {
				ws := names.Words{}
				for _, w := range lists[0] {
					ws = append(ws, names.NewWord(w.text))
				}
				sort.Sort(ws)
				for i := 1; i < len(ws); i++ {
					h.True("sorting words orders them", ws[i-1].String() <= ws[i].String(), "%v", ws)
				}
			}
		})
	}
}

func sign(n int) int {
	switch {
	case n < 0:
		return -1
	case n > 0:
		return 1
	}
	return 0
}
