// Contracts assumed for the standard library, and the theory used to state them.

import strings "strings"
import unicode "unicode"

fun lower(s string) string
fun upper(s string) string
fun title(s string) string
fun strJoin(l slist, sep string) string
fun strReplaceAll(s string, a string, b string) string
fun trimSpace(s string) string
fun hasPrefix(s string, p string) bool
fun hasSuffix(s string, p string) bool

axiom joinEmpty: forall sep string {strJoin(sempty, sep)} :: strJoin(sempty, sep) == ""
axiom joinOne: forall sep string; x string {strJoin(snoc(sempty, x), sep)} :: strJoin(snoc(sempty, x), sep) == x
axiom joinMore: forall l slist; sep string; x string; y string {strJoin(snoc(snoc(l, y), x), sep)} ::
  strJoin(snoc(snoc(l, y), x), sep) == strJoin(snoc(l, y), sep) + sep + x

extern func "strings.ToLower" (s) -> (r) is lower(s)
extern func "strings.ToUpper" (s) -> (r) is upper(s)
extern func "strings.Title" (s) -> (r) is title(s)
extern func "strings.Join" (elems, sep) -> (r) is strJoin(contents(elems), sep)
extern func "strings.ReplaceAll" (s, old, new) -> (r) is strReplaceAll(s, old, new)
extern func "strings.TrimSpace" (s) -> (r) is trimSpace(s)
extern func "strings.HasPrefix" (s, p) -> (r) is hasPrefix(s, p)
extern func "strings.HasSuffix" (s, p) -> (r) is hasSuffix(s, p)
extern func "strings.Compare" (a, b) -> (r) is a == b ? 0 : (a < b ? -1 : 1)

// ---- text ----

fun ascii(s string) bool
axiom asciiCat: forall a string; b string {a + b} :: ascii(a + b) <==> ascii(a) && ascii(b)
axiom lowerCat: forall a string; b string {lower(a + b)} :: ascii(a) && ascii(b) ==> lower(a + b) == lower(a) + lower(b)
axiom lowerTwice: forall a string {lower(lower(a))} :: lower(lower(a)) == lower(a)
axiom lowerEmpty: lower("") == ""
axiom asciiEmpty: ascii("")
axiom asciiLower: forall a string {lower(a)} :: ascii(a) ==> ascii(lower(a))
axiom asciiValid: forall a string {ascii(a)} :: ascii(a) ==> utf8valid(a)
axiom asciiSub: forall a string; i int; j int {substr(a, i, j)} :: ascii(a) && 0 <= i <= j && j <= len(a) ==> ascii(substr(a, i, j))

extern func "strings.Split" (s, sep) -> (r)
  ensures strJoin(contents(r), sep) == s && len(r) >= 1 && fresh(r)

import bytes "bytes"
ghost bytes.Buffer.content string

extern func "(*bytes.Buffer).WriteRune" (b, r) -> (n, err)
  modifies b.content
  ensures b.content == old(b.content) + runestr(r)
extern func "(*bytes.Buffer).WriteString" (b, s) -> (n, err)
  modifies b.content
  ensures b.content == old(b.content) + s
extern func "(*bytes.Buffer).String" (b) -> (r) is b.content
extern func "(*bytes.Buffer).Reset" (b)
  modifies b.content
  ensures b.content == ""
fun isLowerRune(r rune) bool
fun isUpperRune(r rune) bool
fun isDigitRune(r rune) bool
fun isSpaceRune(r rune) bool
extern func "unicode.IsLower" (r) -> (b) is isLowerRune(r)
extern func "unicode.IsUpper" (r) -> (b) is isUpperRune(r)
extern func "unicode.IsDigit" (r) -> (b) is isDigitRune(r)
extern func "unicode.IsSpace" (r) -> (b) is isSpaceRune(r)
