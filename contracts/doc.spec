// Contracts of the documentation of declarations (P12).

import antlr "github.com/antlr/antlr4/runtime/Go/antlr"
fun lineOf(t antlr.Token) int
axiom lines: forall t antlr.Token {lineOf(t)} :: lineOf(t) >= 1
extern func "(antlr.Token).GetLine" (t) -> (r) is lineOf(t)

fun trimPrefix(s string, p string) string
axiom trimmedText: forall s string; p string {trimPrefix(s, p)} :: hasPrefix(s, p) ==> p + trimPrefix(s, p) == s
extern func "strings.TrimPrefix" (s, p) -> (r) is trimPrefix(s, p)
extern func "strings.IndexFunc" (s, f) -> (r)
  ensures 0 - 1 <= r && r < len(s)
axiom prefixLength: forall s string; p string {hasPrefix(s, p)} :: hasPrefix(s, p) ==> len(p) <= len(s)

// Number of consecutive comments right before a line.
rec docCount(c map[int]string, line int) int = line <= 0 ? 0 : (has(c, line - 1) ? 1 + docCount(c, line - 1) : 0)

// Text of a line of comment without the mark, and without the indentation of the first.
define unmarked(s string) string = substr(s, 2, len(s))
define unindented(s string, p string) string = s == "" ? "" : trimPrefix(s, p)
rec docText(c map[int]string, from int, n int, p string) slist =
  n <= 0 ? sempty : snoc(docText(c, from, n - 1, p), unindented(unmarked(c[from + n - 1]), p))
lemma docTextOf(a seq string, c map[int]string, from int, n int, p string) induct n {listof(a, n), docText(c, from, n, p)} :
  (forall j in 0..n {a[j]} :: a[j] == unindented(unmarked(c[from + j]), p)) ==> listof(a, n) == docText(c, from, n, p)
define docOf(c map[int]string, line int, p string) slist = docText(c, line - docCount(c, line), docCount(c, line), p)
// All the lines have the mark and the prefix, that comes from the first one.
define docFits(c map[int]string, line int, p string) bool =
  hasPrefix(unmarked(c[line - docCount(c, line)]), p) &&
  (forall k in line - docCount(c, line)..line {c[k]} :: hasPrefix(c[k], "//") && (unmarked(c[k]) != "" ==> hasPrefix(unmarked(c[k]), p)))
axiom prefixOfItself: forall s string; n int {substr(s, 0, n)} :: 0 <= n && n <= len(s) ==> hasPrefix(s, substr(s, 0, n))

func "(*language.Reader).getDoc" (r, token) -> (doc)
  props P12
  requires r != nil && r.reporter != nil && language.comments != nil && token != nil
  modifies language.comments[*], r.reporter.errors
  ensures consumed: forall k int {has(language.comments, k)} :: has(language.comments, k) <==> old(has(language.comments, k)) && !(lineOf(token) - old(docCount(language.comments, lineOf(token))) <= k && k < lineOf(token))
  ensures kept: forall k int {language.comments[k]} :: has(language.comments, k) ==> language.comments[k] == old(language.comments[k])
  ensures none: old(docCount(language.comments, lineOf(token))) == 0 ==> doc == "" && r.reporter.errors == old(r.reporter.errors)
  ensures text: r.reporter.errors == old(r.reporter.errors) && old(docCount(language.comments, lineOf(token))) > 0 ==>
    (exists p string {old(docOf(language.comments, lineOf(token), p))} :: doc == strJoin(old(docOf(language.comments, lineOf(token), p)), "\n") &&
      old(docFits(language.comments, lineOf(token), p)))
  ensures errors: r.reporter.errors >= old(r.reporter.errors)
  inv (i: int, l: []string): 0 - 1 <= i && i < lineOf(token) && len(l) == lineOf(token) - 1 - i && (len(l) > 0 ==> fresh(l))
  inv (i: int, l: []string): forall j in 0..len(l) {l[j]} :: l[j] == old(language.comments[i + 1 + j])
  inv (i: int): forall k in i + 1..lineOf(token) {old(has(language.comments, k))} :: old(has(language.comments, k))
  inv (i: int): old(docCount(language.comments, lineOf(token))) == lineOf(token) - 1 - i + old(docCount(language.comments, i + 1))
  inv (i: int): forall k int {has(language.comments, k)} :: has(language.comments, k) <==> old(has(language.comments, k)) && !(i < k && k < lineOf(token))
  inv (i: int): forall k int {old(language.comments[k])} :: has(language.comments, k) ==> language.comments[k] == old(language.comments[k])
  inv forall k int {language.comments[k]} :: has(language.comments, k) ==> language.comments[k] == old(language.comments[k])
  inv (l: []string): len(l) == old(docCount(language.comments, lineOf(token)))
  inv (i: idx, l: []string): (forall j in 0..i {l[j]} :: hasPrefix(old(language.comments[lineOf(token) - docCount(language.comments, lineOf(token)) + j]), "//") && l[j] == unmarked(old(language.comments[lineOf(token) - docCount(language.comments, lineOf(token)) + j]))) && (forall j in i..len(l) {l[j]} :: l[j] == old(language.comments[lineOf(token) - docCount(language.comments, lineOf(token)) + j]))
  inv (i: idx, l: []string, p: string): (forall j in 0..i {l[j]} :: hasPrefix(old(language.comments[lineOf(token) - docCount(language.comments, lineOf(token)) + j]), "//") && (unmarked(old(language.comments[lineOf(token) - docCount(language.comments, lineOf(token)) + j])) != "" ==> hasPrefix(unmarked(old(language.comments[lineOf(token) - docCount(language.comments, lineOf(token)) + j])), p)) && l[j] == unindented(unmarked(old(language.comments[lineOf(token) - docCount(language.comments, lineOf(token)) + j])), p)) && (forall j in i..len(l) {l[j]} :: hasPrefix(old(language.comments[lineOf(token) - docCount(language.comments, lineOf(token)) + j]), "//") && l[j] == unmarked(old(language.comments[lineOf(token) - docCount(language.comments, lineOf(token)) + j])))
  inv (p: string): old(docCount(language.comments, lineOf(token))) > 0 ==> old(docOf(language.comments, lineOf(token), p)) != sempty
  inv (i: idx): forall k in lineOf(token) - old(docCount(language.comments, lineOf(token)))..lineOf(token) - old(docCount(language.comments, lineOf(token))) + i {old(language.comments[k])} :: hasPrefix(old(language.comments[k]), "//")
  inv forall k in lineOf(token) - old(docCount(language.comments, lineOf(token)))..lineOf(token) {old(language.comments[k])} :: hasPrefix(old(language.comments[k]), "//")
  inv (i: idx, p: string): forall k in lineOf(token) - old(docCount(language.comments, lineOf(token)))..lineOf(token) - old(docCount(language.comments, lineOf(token))) + i {old(language.comments[k])} :: unmarked(old(language.comments[k])) != "" ==> hasPrefix(unmarked(old(language.comments[k])), p)
  inv (p: string): old(docCount(language.comments, lineOf(token))) > 0 ==> hasPrefix(unmarked(old(language.comments[lineOf(token) - docCount(language.comments, lineOf(token))])), p)
  nopanic
