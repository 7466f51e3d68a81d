// Harness of the composition and rendering of names.
package main

import (
	"fmt"
	"strings"

	"github.com/openshift-online/ocm-api-metamodel/pkg/names"
	. "verifharness/h"
)

type word struct {
	text string
	init bool
}

func main() { Main(run) }

func mk(w word) *names.Word {
	if w.init {
		return names.NewInitialism(w.text)
	}
	return names.NewWord(w.text)
}

func mks(l []word) []*names.Word {
	r := make([]*names.Word, len(l))
	for i, w := range l {
		r[i] = mk(w)
	}
	return r
}

func show(l []word) string {
	var p []string
	for _, w := range l {
		t := fmt.Sprintf("%q", w.text)
		if w.init {
			t += "!"
		}
		p = append(p, t)
	}
	return "[" + strings.Join(p, " ") + "]"
}

func join(l []word, f func(word) string, sep string) string {
	r := ""
	for i, w := range l {
		if i > 0 {
			r += sep
		}
		r += f(w)
	}
	return r
}

func capital(w word) string {
	if w.init || w.text == "" {
		return w.text
	}
	return strings.ToUpper(w.text[:1]) + w.text[1:]
}

func check(h *H, what string, n *names.Name, l []word) {
	if n == nil {
		h.Fail(what, "nil name")
		return
	}
	got := n.Words()
	ok := len(got) == len(l)
	for i := 0; ok && i < len(l); i++ {
		ok = got[i] != nil && got[i].String() == l[i].text && got[i].Initialism() == l[i].init
	}
	h.True(what, ok, "got %v, expected %s", n, show(l))
	if !ok {
		return
	}
	h.Equal("snake case", n.Snake(), join(l, func(w word) string { return strings.ToLower(w.text) }, "_"))
	h.Equal("camel case", n.Camel(), join(l, capital, ""))
	h.Equal("text of the words", n.String(), join(l, func(w word) string { return w.text }, "_"))
	for _, sep := range []string{"-", "", "::"} {
		h.Equal("lower joined", n.LowerJoined(sep), join(l, func(w word) string { return strings.ToLower(w.text) }, sep))
		h.Equal("upper joined", n.UpperJoined(sep), join(l, func(w word) string { return strings.ToUpper(w.text) }, sep))
		h.Equal("capitalized joined", n.CapitalizedJoined(sep), join(l, capital, sep))
	}
}

func cat(ls ...[]word) []word {
	r := []word{}
	for _, l := range ls {
		r = append(r, l...)
	}
	return r
}

func run(h *H) {
	vocab := []word{{"a", false}, {"cluster", false}, {"ID", true}, {"URLs", true}, {"x86", false}, {"AWS", true}, {"my", false}, {"Mixed", false}, {"", false}}
	random := func(n int) []word {
		l := []word{}
		for i := 0; i < n; i++ {
			l = append(l, vocab[h.Rand.Intn(len(vocab))])
		}
		return l
	}
	h.Bound("names of up to 6 words, %d histories of up to 8 operations", h.N(1500, 60000))
	for k := 0; k < h.N(1500, 60000); k++ {
		base := random(h.Rand.Intn(7))
		type made struct {
			n *names.Name
			l []word
		}
		var history []made
		in := show(base)
		h.Case(in, func() {
			ws := mks(base)
			n := names.NewName(ws...)
			history = append(history, made{n, base})
			check(h, "a new name has the given words", n, base)
			// the array of the caller isn't retained
			for i := range ws {
				ws[i] = names.NewWord("changed")
			}
			check(h, "a name doesn't share the words given", n, base)
			for s := 0; s < 1+h.Rand.Intn(8); s++ {
				from := history[h.Rand.Intn(len(history))]
				extra := random(h.Rand.Intn(4))
				arg := make([]*names.Word, 0, len(extra)+h.Rand.Intn(8))
				arg = append(arg, mks(extra)...)
				switch h.Rand.Intn(4) {
				case 0:
					m := made{from.n.Append(arg...), cat(from.l, extra)}
					check(h, "append adds the words at the end", m.n, m.l)
					history = append(history, m)
				case 1:
					m := made{from.n.Insert(arg...), cat(extra, from.l)}
					check(h, "insert adds the words at the beginning", m.n, m.l)
					history = append(history, m)
				case 2:
					var all []*names.Name
					var ls [][]word
					for i := 0; i < h.Rand.Intn(4); i++ {
						x := history[h.Rand.Intn(len(history))]
						all = append(all, x.n)
						ls = append(ls, x.l)
					}
					m := made{names.Cat(all...), cat(ls...)}
					check(h, "concatenation has the words of all the names", m.n, m.l)
					history = append(history, m)
				case 3:
					got := from.n.Words()
					for i := range got {
						got[i] = nil
					}
					full := arg[:cap(arg)]
					for i := range full {
						full[i] = names.NewWord("changed")
					}
				}
				for i := range arg {
					arg[i] = names.NewWord("changed")
				}
				for _, m := range history {
					check(h, "operations don't change other names", m.n, m.l)
				}
			}
			t := "text" + fmt.Sprint(k)
			n.SetText(t)
			h.Equal("text is kept", n.Text(), t)
		})
	}
	h.Case("words", func() {
		for _, w := range vocab {
			h.Equal("capitalized word", mk(w).Capitalize(), capital(w))
			h.Equal("text of word", mk(w).String(), w.text)
			h.Equal("initialism flag", mk(w).Initialism(), w.init)
		}
	})
}
