// Contracts of the parser of names.

lemma textWordsList(a seq *names.Word, c []string, n int) induct n {textWords(a, n), listof(c, n)} :
  n <= len(c) && (forall j in 0..n {a[j]} {c[j]} :: a[j].text == c[j]) ==> textWords(a, n) == listof(c, n)

func "names.ParseUsingSeparator" (text, separator) -> (r)
  props P03
  ensures lossless: strJoin(textWords(elems(r.words), len(r.words)), separator) == text
  ensures plain: forall i in 0..len(r.words) {r.words[i]} :: r.words[i] != nil && !r.words[i].initialism
  ensures text: r.text == text
  ensures r != nil && fresh(r)
  inv (i: idx, w: []*names.Word): forall j in 0..i {w[j]} :: w[j] != nil && !w[j].initialism
  inv (i: idx, w: []*names.Word, c: []string): forall j in 0..i {w[j]} {c[j]} :: w[j].text == c[j]
  nopanic

// ---- case ----

rec runeCat(a seq rune, n int) string = n <= 0 ? "" : runeCat(a, n - 1) + runestr(a[n - 1])
lemma runeCatSame(a, b seq rune, n int) induct n {runeCat(a, n), runeCat(b, n)} :
  (forall j in 0..n {a[j]} {b[j]} :: a[j] == b[j]) ==> runeCat(a, n) == runeCat(b, n)

rec textCat(a seq string, n int) string = n <= 0 ? "" : textCat(a, n - 1) + a[n - 1]
lemma textCatSame(a, b seq string, n int) induct n {textCat(a, n), textCat(b, n)} :
  (forall j in 0..n {a[j]} {b[j]} :: a[j] == b[j]) ==> textCat(a, n) == textCat(b, n)
lemma textCatAscii(a seq string, n int, i int) induct n {textCat(a, n), a[i]} :
  ascii(textCat(a, n)) && 0 <= i < n ==> ascii(a[i])
lemma textCatAscii2(a seq string, n int, i int) induct n {textCat(a, n), textCat(a, i)} :
  ascii(textCat(a, n)) && 0 <= i <= n ==> ascii(textCat(a, i))

func "names.isLower" (s) -> (r)
  opaque
func "names.isUpper" (s) -> (r)
  opaque

func "names.parseWord" (text) -> (r)
  props P03
  ensures lossless: ascii(text) ==> lower(r.text) == lower(text)
  ensures r != nil && fresh(r)
  nopanic

func "names.ParseUsingCase" (text) -> (r)
  props P03
  ensures words: forall i in 0..len(r.words) {r.words[i]} :: r.words[i] != nil
  ensures text: r.text == text
  ensures r != nil && fresh(r)
  inv (r: []rune): utf8valid(text) ==> runeCat(elems(r), len(r)) == substr(text, 0, spos())
  inv (c: []string, i: idx, r: []rune, b: *bytes.Buffer): textCat(elems(c), len(c)) + b.content == runeCat(elems(r), i)
  inv (c: []string, i: idx, r: []rune): i < len(r)
  inv (c: []string): forall j in 0..len(c) {c[j]} :: len(c[j]) >= 1
  inv (c: []string): ascii(text) ==> textCat(elems(c), len(c)) == text
  inv (w: []*names.Word): forall j in 0..len(w) {w[j]} :: w[j] != nil
  inv (i: int, c: []string): 0 <= i <= len(c)
  nopanic
