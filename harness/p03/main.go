// Harness of the parser of names.
package main

import (
	"strings"

	"github.com/openshift-online/ocm-api-metamodel/pkg/names"
	. "verifharness/h"
)

func main() { Main(run) }

type word struct {
	text string
	init bool
}

func lowerRun(s string) int {
	i := 0
	for i < len(s) && s[i] >= 'a' && s[i] <= 'z' {
		i++
	}
	return i
}

func otherRun(s string) int {
	i := 0
	for i < len(s) && !(s[i] >= 'a' && s[i] <= 'z') {
		i++
	}
	return i
}

func isUpper(s string) bool {
	for i := 0; i < len(s); i++ {
		if !(s[i] >= 'A' && s[i] <= 'Z' || s[i] >= '0' && s[i] <= '9') {
			return false
		}
	}
	return true
}

// segment is the specification of the segmentation.
func segment(s string) []word {
	var r []word
	for s != "" {
		if n := lowerRun(s); n > 0 {
			r = append(r, word{s[:n], false})
			s = s[n:]
			continue
		}
		n := otherRun(s)
		m := lowerRun(s[n:])
		head, tail := s[:n], s[n:n+m]
		switch {
		case isUpper(head) && m > 0 && n == 1:
			r = append(r, word{strings.ToLower(head) + tail, false})
			s = s[n+m:]
		case isUpper(head) && tail == "s":
			r = append(r, word{head + "s", true})
			s = s[n+m:]
		case isUpper(head) && m > 0:
			r = append(r, word{head[:n-1], true}, word{strings.ToLower(head[n-1:]) + tail, false})
			s = s[n+m:]
		case isUpper(head) && n >= 2:
			r = append(r, word{head, true})
			s = s[n:]
		default:
			r = append(r, word{strings.ToLower(head), false})
			s = s[n:]
		}
	}
	return r
}

func show(n *names.Name) string {
	r := ""
	for _, w := range n.Words() {
		r += " " + w.String()
		if w.Initialism() {
			r += "!"
		}
	}
	return r
}

func showWords(l []word) string {
	r := ""
	for _, w := range l {
		r += " " + w.text
		if w.init {
			r += "!"
		}
	}
	return r
}

func checkCase(h *H, s string) {
	h.Case("case "+s, func() {
		n := names.ParseUsingCase(s)
		cat := ""
		empty := false
		for _, w := range n.Words() {
			cat += strings.ToLower(w.String())
			empty = empty || w.String() == ""
		}
		h.Equal("parsing by case doesn't lose or add characters", cat, strings.ToLower(s))
		h.True("parsing by case gives no empty words", !empty, "%s", show(n))
		h.Equal("words found by case", show(n), showWords(segment(s)))
		h.Equal("the original text is kept", n.Text(), s)
	})
}

func run(h *H) {
	alphabet := []byte{'a', 's', 'A', 'B', '1', '_'}
	limit := h.N(5, 7)
	h.Bound("all the texts of up to %d characters of the alphabet %q, random texts of up to 40 ASCII letters, digits and underscores", limit, alphabet)
	var all func(s string)
	all = func(s string) {
		if s != "" {
			checkCase(h, s)
		}
		if len(s) < limit {
			for _, c := range alphabet {
				all(s + string(c))
			}
		}
	}
	all("")
	chars := "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_"
	pieces := []string{"Cluster", "CPU", "CPUs", "ID", "IDs", "list", "Is", "s", "S", "x86", "AWS", "URL", "Href", "2", "Item", "OpenID", "v1", "OSImage", "_"}
	for k := 0; k < h.N(3000, 300000); k++ {
		s := ""
		if k%2 == 0 {
			for i := 0; i < 1+h.Rand.Intn(40); i++ {
				s += string(chars[h.Rand.Intn(len(chars))])
			}
		} else {
			for i := 0; i < 1+h.Rand.Intn(6); i++ {
				s += pieces[h.Rand.Intn(len(pieces))]
			}
		}
		checkCase(h, s)
	}
	// Names made of words and initialisms survive a round trip:
	inits := []string{"CPU", "ID", "AWS", "URLs", "IDs", "OS"}
	words := []string{"cluster", "list", "machine", "pool", "role", "add", "ons"}
	for k := 0; k < h.N(3000, 200000); k++ {
		var l []*names.Word
		var e []word
		last := false
		for i := 0; i < 1+h.Rand.Intn(6); i++ {
			if !last && h.Rand.Intn(3) == 0 {
				t := inits[h.Rand.Intn(len(inits))]
				l = append(l, names.NewInitialism(t))
				e = append(e, word{t, true})
				last = true
			} else {
				t := words[h.Rand.Intn(len(words))]
				l = append(l, names.NewWord(t))
				e = append(e, word{t, false})
				last = false
			}
		}
		n := names.NewName(l...)
		h.Case("camel "+showWords(e), func() {
			h.True("camel case can be parsed back", names.ParseUsingCase(n.Camel()).Equals(n), "%s gives %s", n.Camel(), show(names.ParseUsingCase(n.Camel())))
			snake := n.Snake()
			p := names.ParseUsingSeparator(snake, "_")
			h.Equal("snake case can be parsed back", p.Snake(), snake)
			h.Equal("number of words", len(p.Words()), len(e))
		})
	}
	// Separators:
	seps := []string{"_", "-", ".", "::"}
	for k := 0; k < h.N(3000, 100000); k++ {
		sep := seps[h.Rand.Intn(len(seps))]
		var l []string
		for i := 0; i < 1+h.Rand.Intn(5); i++ {
			t := ""
			for j := 0; j < h.Rand.Intn(4); j++ {
				t += string("abcXYZ19"[h.Rand.Intn(8)])
			}
			l = append(l, t)
		}
		text := strings.Join(l, sep)
		h.Case("separator "+sep+" "+text, func() {
			n := names.ParseUsingSeparator(text, sep)
			var got []string
			plain := true
			for _, w := range n.Words() {
				got = append(got, w.String())
				plain = plain && !w.Initialism()
			}
			h.Equal("words are the pieces between separators", strings.Join(got, "|"), strings.Join(l, "|"))
			h.True("words found by separator aren't initialisms", plain, "%s", show(n))
			h.Equal("the original text is kept", n.Text(), text)
		})
	}
}
