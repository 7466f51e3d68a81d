// Contracts of the names package.

import names "github.com/openshift-online/ocm-api-metamodel/pkg/names"

// ---- words ----

func "names.NewWord" (text) -> (r)
  props P02
  ensures text: r.text == text && !r.initialism
  ensures fresh(r) && r != nil
  nopanic

func "names.NewInitialism" (text) -> (r)
  props P02
  ensures text: r.text == text && r.initialism
  ensures fresh(r) && r != nil
  nopanic

func "(*names.Word).String" (w) -> (r)
  props P01, P02
  requires w != nil
  is w.text
  nopanic

func "(*names.Word).Initialism" (w) -> (r)
  props P02
  requires w != nil
  is w.initialism
  nopanic

define capitalized(w *names.Word) string = w.initialism ? w.text : title(w.text)

func "(*names.Word).Capitalize" (w) -> (r)
  props P02
  requires w != nil
  is capitalized(w)
  nopanic

define wordEq(a, b *names.Word) bool =
  a == nil && b == nil || a != nil && b != nil && a.text == b.text && a.initialism == b.initialism

func "(*names.Word).Equals" (w, word) -> (r)
  props P01
  is wordEq(w, word)
  nopanic

// ---- comparison ----

rec allEq(a, b seq *names.Word, n int) bool =
  n <= 0 ? true : allEq(a, b, n - 1) && wordEq(a[n - 1], b[n - 1])

lemma allEqStep(a, b seq *names.Word, i int, n int) induct n {allEq(a, b, i), allEq(a, b, n)} :
  i <= n && allEq(a, b, n) ==> allEq(a, b, i)

lemma allEqAt(a, b seq *names.Word, i int, n int) induct n {allEq(a, b, n), a[i]} {allEq(a, b, n), b[i]} :
  0 <= i < n && allEq(a, b, n) ==> wordEq(a[i], b[i])

lemma allEqRefl(a seq *names.Word, n int) props P01 induct n {allEq(a, a, n)} : allEq(a, a, n)

lemma allEqSymm(a, b seq *names.Word, n int) props P01 induct n {allEq(a, b, n), allEq(b, a, n)} :
  allEq(a, b, n) <==> allEq(b, a, n)

lemma allEqTrans(a, b, c seq *names.Word, n int) props P01 induct n {allEq(a, b, n), allEq(b, c, n)} :
  allEq(a, b, n) && allEq(b, c, n) ==> allEq(a, c, n)

define nameEq(a, b *names.Name) bool =
  a == nil && b == nil ||
  a != nil && b != nil && len(a.words) == len(b.words) && allEq(elems(a.words), elems(b.words), len(a.words))

func "(*names.Name).Equals" (n, name) -> (r)
  props P01
  is nameEq(n, name)
  inv (i: idx): 0 <= i <= len(n.words) && allEq(elems(n.words), elems(name.words), i)
  nopanic

// lcp is the length of the common prefix of the words
rec lcp(a, b seq *names.Word, n int) int =
  n <= 0 ? 0 : (lcp(a, b, n - 1) == n - 1 && a[n - 1].text == b[n - 1].text ? n : lcp(a, b, n - 1))

lemma lcpRange(a, b seq *names.Word, n int) induct n {lcp(a, b, n)} :
  0 <= lcp(a, b, n) && (n >= 0 ==> lcp(a, b, n) <= n)
lemma lcpSame(a, b seq *names.Word, n int, i int) induct n {lcp(a, b, n), a[i]} {lcp(a, b, n), b[i]} :
  0 <= i < lcp(a, b, n) ==> a[i].text == b[i].text
lemma lcpDiff(a, b seq *names.Word, n int) induct n {lcp(a, b, n)} :
  0 <= lcp(a, b, n) < n ==> a[lcp(a, b, n)].text != b[lcp(a, b, n)].text
lemma lcpStop(a, b seq *names.Word, i int, n int) induct n {lcp(a, b, i), lcp(a, b, n)} :
  0 <= i < n && lcp(a, b, i) == i && a[i].text != b[i].text ==> lcp(a, b, n) == i
lemma lcpSymm(a, b seq *names.Word, n int) induct n {lcp(a, b, n), lcp(b, a, n)} :
  lcp(a, b, n) == lcp(b, a, n)

define minInt(a, b int) int = b < a ? b : a

define cmpSeq(a, b seq *names.Word, n, m int) int =
  let k = lcp(a, b, minInt(n, m)) ::
    (k < minInt(n, m) ? (a[k].text < b[k].text ? -1 : 1) : (n < m ? -1 : (n > m ? 1 : 0)))

define nameCmp(a, b *names.Name) int =
  cmpSeq(elems(a.words), elems(b.words), len(a.words), len(b.words))

func "names.Compare" (a, b) -> (r)
  props P01
  requires a != nil && b != nil
  requires forall i in 0..len(a.words) {a.words[i]} :: a.words[i] != nil
  requires forall i in 0..len(b.words) {b.words[i]} :: b.words[i] != nil
  is nameCmp(a, b)
  inv (i: idx): 0 <= i && i <= len(a.words) && i <= len(b.words)
  inv (i: idx): lcp(elems(a.words), elems(b.words), i) == i
  inv (r: int): r == 0
  nopanic

lemma cmpRefl(a seq *names.Word, n int) props P01 : cmpSeq(a, a, n, n) == 0
lemma cmpAnti(a, b seq *names.Word, n, m int) props P01 : n >= 0 && m >= 0 ==> cmpSeq(a, b, n, m) == -cmpSeq(b, a, m, n)
lemma cmpTrans(a, b, c seq *names.Word, n, m, k int) props P01 :
  n >= 0 && m >= 0 && k >= 0 && cmpSeq(a, b, n, m) <= 0 && cmpSeq(b, c, m, k) <= 0 ==> cmpSeq(a, c, n, k) <= 0

// ---- composition ----

func "names.NewName" (words) -> (r)
  props P02
  ensures words: contents(r.words) == old(contents(words)) && len(r.words) == len(words)
  ensures elements: forall i in 0..len(words) {r.words[i]} :: r.words[i] == old(words[i])
  ensures text: r.text == ""
  ensures nocopy: fresh(r) && fresh(r.words) && cap(r.words) == len(r.words)
  nopanic

func "(*names.Name).Text" (n) -> (r)
  props P02
  requires n != nil
  is n.text
  nopanic

func "(*names.Name).SetText" (n, text)
  props P02
  requires n != nil
  modifies n.text
  ensures n.text == text
  nopanic

func "(*names.Name).Words" (n) -> (r)
  props P02
  requires n != nil
  ensures words: contents(r) == contents(n.words) && len(r) == len(n.words)
  ensures elements: forall i in 0..len(r) {r[i]} :: r[i] == n.words[i]
  ensures copy: len(r) > 0 ==> fresh(r)
  nopanic

func "(*names.Name).Append" (n, words) -> (r)
  props P02
  requires n != nil && cap(n.words) == len(n.words)
  ensures words: contents(r.words) == cat(old(contents(n.words)), old(contents(words)))
  ensures length: len(r.words) == len(n.words) + len(words)
  ensures nocopy: fresh(r) && fresh(r.words) && cap(r.words) == len(r.words)
  nopanic

func "(*names.Name).Insert" (n, words) -> (r)
  props P02
  requires n != nil
  modifies words[*]
  ensures words: contents(r.words) == cat(old(contents(words)), old(contents(n.words)))
  ensures length: len(r.words) == len(n.words) + len(words)
  ensures nocopy: fresh(r) && fresh(r.words) && cap(r.words) == len(r.words)
  ensures same: contents(words) == old(contents(words))
  nopanic

define wordsOk(n *names.Name) bool = n != nil && (forall i in 0..len(n.words) {n.words[i]} :: n.words[i] != nil)

rec catWords(l seq *names.Name, n int) list =
  n <= 0 ? empty : cat(catWords(l, n - 1), contents(l[n - 1].words))

lemma catOne(l seq *names.Name) {catWords(l, 1)} : catWords(l, 0) == empty && catWords(l, 1) == contents(l[0].words)
lemma catTwo(l seq *names.Name) {catWords(l, 2)} : catWords(l, 1) == contents(l[0].words) && catWords(l, 2) == cat(contents(l[0].words), contents(l[1].words))
lemma catThree(l seq *names.Name) {catWords(l, 3)} : catWords(l, 2) == cat(contents(l[0].words), contents(l[1].words)) &&
  catWords(l, 3) == cat(cat(contents(l[0].words), contents(l[1].words)), contents(l[2].words))

rec catLen(l seq *names.Name, n int) int =
  n <= 0 ? 0 : catLen(l, n - 1) + len(l[n - 1].words)

lemma catLenMono(l seq *names.Name, i int, n int) induct n {catLen(l, i), catLen(l, n)} :
  i <= n && (forall j in 0..n {l[j]} :: len(l[j].words) >= 0) ==> catLen(l, i) <= catLen(l, n)

func "names.Cat" (l) -> (r)
  props P02
  requires forall i in 0..len(l) {l[i]} :: l[i] != nil
  ensures words: contents(r.words) == old(catWords(elems(l), len(l)))
  ensures length: len(r.words) == old(catLen(elems(l), len(l)))
  ensures text: r.text == ""
  ensures nocopy: fresh(r) && fresh(r.words) && cap(r.words) == len(r.words)
  ensures wholeWords: old(forall i in 0..len(l) {l[i]} :: wordsOk(l[i])) ==> wordsOk(r)
  inv (i: idx, n: idx, r: []*names.Word): old(forall i in 0..len(l) {l[i]} :: wordsOk(l[i])) ==> (forall k in 0..n {r[k]} :: r[k] != nil)
  inv (n: idx, r: []*names.Word): old(forall i in 0..len(l) {l[i]} :: wordsOk(l[i])) ==> (forall k in 0..n {r[k]} :: r[k] != nil)
  inv (i: idx, n: int): n == old(catLen(elems(l), i)) && 0 <= i <= len(l)
  inv (i: idx, n: idx, r: []*names.Word): n == old(catLen(elems(l), i)) && listof(r, n) == old(catWords(elems(l), i)) && 0 <= i <= len(l)
  inv (i: int, j: idx, n: idx, r: []*names.Word): n == old(catLen(elems(l), i)) + j && 0 <= i < len(l) && 0 <= j <= len(old(l[i].words)) && old(catLen(elems(l), i + 1)) <= len(r) &&
    listof(r, n) == cat(old(catWords(elems(l), i)), old(listof(l[i].words, j)))
  nopanic

// ---- rendering ----

rec lowerWords(l seq *names.Word, n int) slist = n <= 0 ? sempty : snoc(lowerWords(l, n - 1), lower(l[n - 1].text))
rec upperWords(l seq *names.Word, n int) slist = n <= 0 ? sempty : snoc(upperWords(l, n - 1), upper(l[n - 1].text))
rec capWords(l seq *names.Word, n int) slist = n <= 0 ? sempty : snoc(capWords(l, n - 1), capitalized(l[n - 1]))
rec textWords(l seq *names.Word, n int) slist = n <= 0 ? sempty : snoc(textWords(l, n - 1), l[n - 1].text)

func "(*names.Name).LowerJoined" (n, separator) -> (r)
  props P02
  requires wordsOk(n)
  is strJoin(lowerWords(elems(n.words), len(n.words)), separator)
  inv (c: []string, i: idx): listof(c, i) == lowerWords(elems(n.words), i)
  nopanic

func "(*names.Name).UpperJoined" (n, separator) -> (r)
  props P02
  requires wordsOk(n)
  is strJoin(upperWords(elems(n.words), len(n.words)), separator)
  inv (c: []string, i: idx): listof(c, i) == upperWords(elems(n.words), i)
  nopanic

func "(*names.Name).CapitalizedJoined" (n, separator) -> (r)
  props P02
  requires wordsOk(n)
  is strJoin(capWords(elems(n.words), len(n.words)), separator)
  inv (c: []string, i: idx): listof(c, i) == capWords(elems(n.words), i)
  nopanic

func "(*names.Name).String" (n) -> (r)
  props P02
  requires wordsOk(n)
  is strJoin(textWords(elems(n.words), len(n.words)), "_")
  inv (c: []string, i: idx): listof(c, i) == textWords(elems(n.words), i)
  nopanic

func "(*names.Name).Snake" (n) -> (r)
  props P02
  requires wordsOk(n)
  is strJoin(lowerWords(elems(n.words), len(n.words)), "_")
  nopanic

func "(*names.Name).Camel" (n) -> (r)
  props P02
  requires wordsOk(n)
  is strJoin(capWords(elems(n.words), len(n.words)), "")
  nopanic

// ---- sorting support ----

func "(names.Names).Len" (n) -> (r)
  props P01
  is len(n)
func "(names.Names).Less" (n, i, j) -> (r)
  props P01
  requires 0 <= i < len(n) && 0 <= j < len(n) && wordsOk(n[i]) && wordsOk(n[j])
  is nameCmp(n[i], n[j]) == -1
func "(names.Names).Swap" (n, i, j)
  props P01
  requires 0 <= i < len(n) && 0 <= j < len(n)
  modifies n[*]
  ensures n[i] == old(n[j]) && n[j] == old(n[i])
  ensures forall k in 0..len(n) {n[k]} :: k != i && k != j ==> n[k] == old(n[k])
func "(names.Words).Len" (n) -> (r)
  props P01
  is len(n)
func "(names.Words).Less" (n, i, j) -> (r)
  props P01
  requires 0 <= i < len(n) && 0 <= j < len(n) && n[i] != nil && n[j] != nil
  is n[i].text < n[j].text
func "(names.Words).Swap" (n, i, j)
  props P01
  requires 0 <= i < len(n) && 0 <= j < len(n)
  modifies n[*]
  ensures n[i] == old(n[j]) && n[j] == old(n[i])
  ensures forall k in 0..len(n) {n[k]} :: k != i && k != j ==> n[k] == old(n[k])
