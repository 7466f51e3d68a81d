// Contracts of the calculators of Go names, packages and types.

import golang "github.com/openshift-online/ocm-api-metamodel/pkg/generators/golang"
import path "path"

fun pathJoin(a, b string) string
fun pathBase(s string) string
axiom pathJoinAssoc: forall a string; b string; c string {pathJoin(a, pathJoin(b, c))} {pathJoin(pathJoin(a, b), c)} ::
  pathJoin(a, pathJoin(b, c)) == pathJoin(pathJoin(a, b), c)
extern func "path.Join" (elems) -> (r)
  ensures len(elems) == 2 ==> r == pathJoin(elems[0], elems[1])
  ensures len(elems) == 3 ==> r == pathJoin(elems[0], pathJoin(elems[1], elems[2]))
extern func "path.Base" (s) -> (r) is pathBase(s)

// ---- names ----

define keyword(w string) bool =
  w == "break" || w == "case" || w == "chan" || w == "const" || w == "continue" || w == "default" || w == "defer" || w == "else" ||
  w == "fallthrough" || w == "for" || w == "func" || w == "go" || w == "goto" || w == "if" || w == "import" || w == "interface" ||
  w == "map" || w == "package" || w == "range" || w == "return" || w == "select" || w == "struct" || w == "switch" || w == "type" || w == "var"
globalfact reservedWords: golang.reservedWords != nil && (forall w string {has(golang.reservedWords, w)} :: has(golang.reservedWords, w) <==> keyword(w))

define escaped(w string) string = keyword(w) ? w + "_" : w

func "golang.AvoidReservedWord" (word) -> (r)
  props P17
  is escaped(word)
  nopanic

define publicName(n *names.Name) string = escaped(strJoin(capWords(elems(n.words), len(n.words)), ""))
rec privWords(l seq *names.Word, n int) slist =
  n <= 0 ? sempty : snoc(privWords(l, n - 1), n == 1 ? lower(l[n - 1].text) : capitalized(l[n - 1]))
define privateName(n *names.Name) string = escaped(strJoin(privWords(elems(n.words), len(n.words)), ""))

func "(*golang.NamesCalculator).Public" (c, name) -> (r)
  props P17
  requires wordsOk(name)
  is publicName(name)
  inv (c: []string, i: idx): listof(c, i) == capWords(elems(name.words), i)
  nopanic

func "(*golang.NamesCalculator).Private" (c, name) -> (r)
  props P17
  requires wordsOk(name)
  is privateName(name)
  inv (c: []string, i: idx): listof(c, i) == privWords(elems(name.words), i)
  nopanic

func "(*golang.NamesCalculator).File" (c, name) -> (r)
  props P17
  requires wordsOk(name)
  is strJoin(lowerWords(elems(name.words), len(name.words)), "_")
  nopanic

// ---- packages ----

define flat(n *names.Name) string = strJoin(lowerWords(elems(n.words), len(n.words)), "")
define versionPackage(v *concepts.Version) string = pathJoin(flat(v.owner.name), flat(v.name))
define versionOk(v *concepts.Version) bool = v != nil && wordsOk(v.name) && v.owner != nil && wordsOk(v.owner.name)

func "(*golang.PackagesCalculator).ServicePackage" (c, x) -> (r)
  props P17
  requires x != nil && wordsOk(x.name)
  is flat(x.name)
  nopanic
func "(*golang.PackagesCalculator).ServiceImport" (c, x) -> (r)
  props P17
  requires c != nil && x != nil && wordsOk(x.name)
  is pathJoin(c.base, flat(x.name))
  nopanic
func "(*golang.PackagesCalculator).ServiceSelector" (c, x) -> (r)
  props P17
  requires c != nil && x != nil && wordsOk(x.name)
  is pathBase(flat(x.name))
  nopanic
func "(*golang.PackagesCalculator).VersionPackage" (c, x) -> (r)
  props P17
  requires versionOk(x)
  is versionPackage(x)
  nopanic
func "(*golang.PackagesCalculator).VersionImport" (c, x) -> (r)
  props P17
  requires c != nil && versionOk(x)
  is pathJoin(c.base, versionPackage(x))
  nopanic
func "(*golang.PackagesCalculator).VersionSelector" (c, x) -> (r)
  props P17
  requires c != nil && versionOk(x)
  is pathBase(versionPackage(x))
  nopanic

globalfact nomHelpers: nomenclator.Helpers != nil && isWord(nomenclator.Helpers, "helpers")
globalfact nomMetrics: nomenclator.Metrics != nil && isWord(nomenclator.Metrics, "metrics")
globalfact nomErrors: nomenclator.Errors != nil && isWord(nomenclator.Errors, "errors")
axiom lowerHelpers: lower("helpers") == "helpers"
axiom lowerMetrics: lower("metrics") == "metrics"
axiom lowerErrors: lower("errors") == "errors"
lemma oneLower(a seq *names.Word, sep string) {strJoin(lowerWords(a, 1), sep)} : lowerWords(a, 0) == sempty && strJoin(lowerWords(a, 1), sep) == lower(a[0].text)

func "(*golang.PackagesCalculator).HelpersPackage" (c) -> (r)
  props P17
  is "helpers"
  nopanic
func "(*golang.PackagesCalculator).HelpersImport" (c) -> (r)
  props P17
  requires c != nil
  is pathJoin(c.base, "helpers")
  nopanic
func "(*golang.PackagesCalculator).MetricsPackage" (c) -> (r)
  props P17
  is "metrics"
  nopanic
func "(*golang.PackagesCalculator).MetricsImport" (c) -> (r)
  props P17
  requires c != nil
  is pathJoin(c.base, "metrics")
  nopanic
func "(*golang.PackagesCalculator).ErrorsPackage" (c) -> (r)
  props P17
  is "errors"
  nopanic
func "(*golang.PackagesCalculator).ErrorsImport" (c) -> (r)
  props P17
  requires c != nil
  is pathJoin(c.base, "errors")
  nopanic
func "(*golang.PackagesCalculator).BasePackage" (c) -> (r)
  props P17
  requires c != nil
  is c.base
  nopanic

// ---- types ----

define goName(t *concepts.Type) string =
  annParam(&t.annotatedSupport, "go", "name") == "" ? publicName(t.name) : annParam(&t.annotatedSupport, "go", "name")
// The built-in types of a version are scalars with different names, and they are the ones held under those names:
define kindOf(v *concepts.Version, name string, k int) bool =
  has(v.types, name) && v.types[name] != nil && v.types[name].kind == k && v.types[name].owner == v
define builtinsOk(v *concepts.Version) bool =
  v.types != nil && kindOf(v, "boolean", 6) && kindOf(v, "integer", 6) && kindOf(v, "long", 6) && kindOf(v, "float", 6) &&
  kindOf(v, "string", 6) && kindOf(v, "date", 6) && kindOf(v, "interface", 3) &&
  (forall k string {v.types[k]} :: has(v.types, k) && v.types[k] != nil ==> keyOf(v.types[k]) == k)
fun keyOf(t *concepts.Type) string
define typeOk(t *concepts.Type) bool =
  t != nil && wordsOk(t.name) && annsOk(&t.annotatedSupport) && versionOk(t.owner) && builtinsOk(t.owner)
define nestedOk(t *concepts.Type) bool = typeOk(t) && (t.kind == 4 || t.kind == 5 ==> typeOk(t.element))
define isB(t *concepts.Type, name string) bool = t == t.owner.types[name]
define builtinName(t *concepts.Type) string =
  isB(t, "boolean") ? "bool" : isB(t, "integer") ? "int" : isB(t, "long") ? "int64" : isB(t, "float") ? "float64" :
  isB(t, "string") ? "string" : isB(t, "interface") ? "interface{}" : isB(t, "date") ? "Time" : ""
define named_(t *concepts.Type) bool = t.kind == 1 || t.kind == 2 || t.kind == 7
define plainName(t *concepts.Type) string = named_(t) ? goName(t) : builtinName(t)
define plainText(t *concepts.Type) string = isB(t, "date") ? "time.Time" : plainName(t)
define typeImport(c *golang.TypesCalculator, t *concepts.Type) string =
  isB(t, "date") ? "time" : (named_(t) ? pathJoin(c.packages.base, versionPackage(t.owner)) : "")
define typeSelector(c *golang.TypesCalculator, t *concepts.Type) string =
  isB(t, "date") ? "time" : (named_(t) ? pathBase(typeImport(c, t)) : "")
define structKind(t *concepts.Type) bool = t.kind == 1 || t.kind == 7
define calcOk(c *golang.TypesCalculator) bool = c != nil && c.reporter != nil && c.packages != nil && c.names != nil
// plain types are the built-in ones, the enumerated ones and the structs:
define plain(t *concepts.Type) bool = named_(t) || builtinName(t) != ""
define representable(t *concepts.Type) bool =
  plain(t) || (t.kind == 4 || t.kind == 5) && plain(t.element)
define elemText(c *golang.TypesCalculator, t *concepts.Type) string =
  structKind(t) ? "*" + typeSelector(c, t) + "." + plainText(t) : plainText(t)
define valueText(c *golang.TypesCalculator, t *concepts.Type) string =
  t.kind == 4 ? "[]" + elemText(c, t.element) : t.kind == 5 ? "map[string]" + elemText(c, t.element) : plainText(t)
define baseType(t *concepts.Type) *concepts.Type = t.kind == 4 || t.kind == 5 ? t.element : t

func "(*golang.TypesCalculator).Package" (c, t) -> (imprt, selector)
  props P16
  requires calcOk(c) && typeOk(t)
  modifies c.reporter.errors
  ensures import: plain(t) ==> imprt == typeImport(c, t)
  ensures selector: plain(t) ==> selector == typeSelector(c, t)
  ensures lists: t.kind == 4 ==> imprt == pathJoin(c.packages.base, versionPackage(t.owner)) && selector == pathBase(imprt)
  ensures reported: c.reporter.errors == old(c.reporter.errors) + (plain(t) || t.kind == 4 ? 0 : 1)

func "(*golang.TypesCalculator).ValueReference" (c, t) -> (r)
  props P16
  requires calcOk(c) && nestedOk(t)
  modifies c.reporter.errors
  ensures text: representable(t) ==> r.text == valueText(c, t)
  ensures name: representable(t) ==> r.name == plainName(baseType(t))
  ensures import: representable(t) ==> r.imprt == typeImport(c, baseType(t)) && r.selector == typeSelector(c, baseType(t))
  ensures reported: c.reporter.errors == old(c.reporter.errors) + (representable(t) ? 0 : 1)
  ensures fresh: r != nil && fresh(r)

func "(*golang.TypesCalculator).NullableReference" (c, t, version) -> (r)
  props P16
  requires calcOk(c) && nestedOk(t)
  modifies c.reporter.errors
  ensures text: representable(t) ==> r.text ==
    (structKind(t) ? "*" + (version == "" ? typeSelector(c, t) : version) + "." + plainName(t) :
     (t.kind == 6 || t.kind == 2 ? "*" + valueText(c, t) : valueText(c, t)))
  ensures name: representable(t) ==> r.name == plainName(baseType(t))
  ensures import: representable(t) ==> r.imprt == typeImport(c, baseType(t)) && r.selector == typeSelector(c, baseType(t))
  ensures reported: c.reporter.errors == old(c.reporter.errors) + (representable(t) ? 0 : 1)
  ensures fresh: r != nil && fresh(r)

func "(*golang.TypesCalculator).EnumReference" (c, t) -> (r)
  props P16
  requires calcOk(c) && nestedOk(t)
  modifies c.reporter.errors
  ensures text: t.kind == 2 ==> r.text == goName(t) && r.name == goName(t) && r.imprt == typeImport(c, t) && r.selector == typeSelector(c, t)
  ensures reported: c.reporter.errors == old(c.reporter.errors) + (t.kind == 2 ? 0 : 1)
  ensures fresh: r != nil && fresh(r)
func "(*golang.TypesCalculator).EnumName" (c, t) -> (r)
  props P16
  requires calcOk(c) && nestedOk(t)
  modifies c.reporter.errors
  ensures name: t.kind == 2 ==> r == goName(t)
  ensures reported: c.reporter.errors == old(c.reporter.errors) + (t.kind == 2 ? 0 : 1)

func "(*golang.TypesCalculator).StructReference" (c, t) -> (r)
  props P16
  requires calcOk(c) && nestedOk(t)
  modifies c.reporter.errors
  ensures struct: structKind(t) ==> r.text == goName(t) && r.name == goName(t) && r.imprt == typeImport(c, t) && r.selector == typeSelector(c, t)
  ensures list: t.kind == 4 ==> r.text == goName(t.element) + "List" && r.name == goName(t.element) + "List"
  ensures listPackage: t.kind == 4 && plain(t.element) ==> r.imprt == typeImport(c, t.element) && r.selector == typeSelector(c, t.element)
  ensures reported: structKind(t) || t.kind == 4 && plain(t.element) ==> c.reporter.errors == old(c.reporter.errors)
  ensures others: !structKind(t) && t.kind != 4 ==> c.reporter.errors == old(c.reporter.errors) + 1
  ensures fresh: r != nil && fresh(r)
func "(*golang.TypesCalculator).StructName" (c, t) -> (r)
  props P16
  requires calcOk(c) && nestedOk(t)
  modifies c.reporter.errors
  ensures struct: structKind(t) ==> r == goName(t)
  ensures list: t.kind == 4 ==> r == goName(t.element) + "List"

func "(*golang.TypesCalculator).ListReference" (c, t) -> (r)
  props P16
  requires calcOk(c) && nestedOk(t)
  modifies c.reporter.errors
  ensures name: t.kind == 4 ==> r.name == goName(t.element) + "List"
  ensures text: t.kind == 4 && plain(t.element) ==> r.text == "*" + typeSelector(c, t.element) + "." + goName(t.element) + "List"
  ensures package: t.kind == 4 && plain(t.element) ==> r.imprt == typeImport(c, t.element) && r.selector == typeSelector(c, t.element)
  ensures others: t.kind != 4 ==> c.reporter.errors == old(c.reporter.errors) + 1
  ensures reported: t.kind == 4 && plain(t.element) ==> c.reporter.errors == old(c.reporter.errors)
  ensures fresh: r != nil && fresh(r)
func "(*golang.TypesCalculator).ListName" (c, t) -> (r)
  props P16
  requires calcOk(c) && nestedOk(t)
  modifies c.reporter.errors
  ensures name: t.kind == 4 ==> r == goName(t.element) + "List"

func "(*golang.TypesCalculator).BuilderReference" (c, t, version) -> (r)
  props P16
  requires calcOk(c) && nestedOk(t)
  modifies c.reporter.errors
  ensures struct: structKind(t) ==> r.name == goName(t) + "Builder" && r.imprt == typeImport(c, t) && r.selector == typeSelector(c, t) &&
    r.text == "*" + (version == "" ? typeSelector(c, t) : version) + "." + goName(t) + "Builder"
  ensures list: t.kind == 4 && plain(t.element) ==> r.name == goName(t.element) + "ListBuilder" && r.imprt == typeImport(c, t.element) &&
    r.selector == typeSelector(c, t.element) && r.text == "*" + (version == "" ? typeSelector(c, t.element) : version) + "." + goName(t.element) + "ListBuilder"
  ensures reported: structKind(t) || t.kind == 4 && plain(t.element) ==> c.reporter.errors == old(c.reporter.errors)
  ensures others: !structKind(t) && t.kind != 4 ==> c.reporter.errors == old(c.reporter.errors) + 1
  ensures fresh: r != nil && fresh(r)

func "(*golang.TypesCalculator).ZeroValue" (c, t) -> (r)
  props P16
  requires calcOk(c) && nestedOk(t)
  modifies c.reporter.errors
  ensures nil: structKind(t) || t.kind == 4 || t.kind == 5 || t.kind == 3 ==> r == "nil"
  ensures enum: t.kind == 2 ==> r == goName(t) + "(\"\")"
  ensures scalar: t.kind == 6 && builtinName(t) != "" ==> r == (isB(t, "boolean") ? "false" : isB(t, "integer") || isB(t, "long") ? "0" :
    isB(t, "float") ? "0.0" : isB(t, "date") ? "time.Time{}" : "\"\"")
  ensures reported: plain(t) || t.kind == 4 || t.kind == 5 || t.kind == 3 ==> c.reporter.errors == old(c.reporter.errors)
  ensures others: !(plain(t) || t.kind == 4 || t.kind == 5 || t.kind == 3) ==> c.reporter.errors == old(c.reporter.errors) + 1

fun fmtInt(n int) string
axiom fmt32: fmtInt(32) == "32"
axiom fmt64: fmtInt(64) == "64"
axiom uint32: "uint" + "32" == "uint32"
axiom uint64: "uint" + "64" == "uint64"

func "(*golang.TypesCalculator).bitmapSize" (c, t) -> (r)
  props P16
  requires t != nil
  is len(t.attributes) + (t.kind == 1 ? 3 : 0) <= 32 ? 32 : 64
func "(*golang.TypesCalculator).BitmapType" (c, t) -> (r)
  props P16
  requires calcOk(c) && typeOk(t)
  modifies c.reporter.errors
  ensures size: structKind(t) && len(t.attributes) + (t.kind == 1 ? 3 : 0) <= 64 ==>
    r.text == (len(t.attributes) + (t.kind == 1 ? 3 : 0) <= 32 ? "uint32" : "uint64") && r.name == r.text && r.imprt == "" && r.selector == ""
  ensures reported: c.reporter.errors == old(c.reporter.errors) + (structKind(t) && len(t.attributes) + (t.kind == 1 ? 3 : 0) <= 64 ? 0 : 1)
  ensures fresh: r != nil && fresh(r)

// The number of attributes before the first x of the first n of a.
rec attrsBefore(a seq *concepts.Attribute, x *concepts.Attribute, n int) int =
  n <= 0 ? 0 : attrsBefore(a, x, n - 1) < n - 1 ? attrsBefore(a, x, n - 1) : a[n - 1] == x ? n - 1 : n
lemma attrsBeforeRange(a seq *concepts.Attribute, x *concepts.Attribute, n int) induct n {attrsBefore(a, x, n)} :
  n >= 0 ==> 0 <= attrsBefore(a, x, n) <= n
lemma attrsBeforeFound(a seq *concepts.Attribute, x *concepts.Attribute, i int, n int) induct n {attrsBefore(a, x, i), a[i], attrsBefore(a, x, n)} :
  0 <= i < n && attrsBefore(a, x, i) == i && a[i] == x ==> attrsBefore(a, x, n) == i

lemma attrsBeforeMore(a seq *concepts.Attribute, x *concepts.Attribute, n int, m int) induct m {attrsBefore(a, x, n), attrsBefore(a, x, m)} :
  0 <= n <= m && attrsBefore(a, x, n) < n ==> attrsBefore(a, x, m) == attrsBefore(a, x, n)

// The flags of the first 64 attributes are different, and those of the first 32 fit in 32 bits.
fun flagNumber(n int) int
lemma flagsApart(i, j int) {flagNumber(i), flagNumber(j)} :
  0 <= i < 64 && 0 <= j < 64 && uint64(1) << i == uint64(1) << j ==> i == j
lemma flagsFit(i int) {flagNumber(i)} :
  0 <= i < 32 ==> 0 != uint64(1) << i && uint64(1) << i <= uint64(2147483648)

// The text of a number that isn't of the type int.
fun decimalText(x any) string
extern func "strconv.FormatUint" (n, base) -> (r)
  ensures base == 10 ==> r == decimalText(box(n))

// Each attribute has the bit of its position. The first three bits of a class are those of the kind, the
// identifier and the link.
func "(*golang.TypesCalculator).BitMask" (c, a) -> (r)
  props P16
  requires a != nil && a.owner != nil
  inv (i: idx): attrsBefore(a.owner.attributes, a, i) == i
  inv (i: idx, n: int): n == attrsBefore(a.owner.attributes, a, i) + (a.owner.kind == 1 ? 3 : 0)
  inv (i: idx, n: int): n == attrsBefore(a.owner.attributes, a, i)
  ensures bit: attrsBefore(a.owner.attributes, a, len(a.owner.attributes)) < len(a.owner.attributes) ==>
    r == decimalText(box(uint64(1) << (attrsBefore(a.owner.attributes, a, len(a.owner.attributes)) + (a.owner.kind == 1 ? 3 : 0))))

func "(*golang.TypeReference).Import" (r) -> (x)
  props P16
  requires r != nil
  is r.imprt
  nopanic
func "(*golang.TypeReference).Selector" (r) -> (x)
  props P16
  requires r != nil
  is r.selector
  nopanic
func "(*golang.TypeReference).Name" (r) -> (x)
  props P16
  requires r != nil
  is r.name
  nopanic
func "(*golang.TypeReference).Text" (r) -> (x)
  props P16
  requires r != nil
  is r.text
  nopanic
