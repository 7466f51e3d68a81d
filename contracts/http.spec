// Contracts of the classification of methods, types and parameters, and of the HTTP binding.

import http "github.com/openshift-online/ocm-api-metamodel/pkg/http"
import annotations "github.com/openshift-online/ocm-api-metamodel/pkg/annotations"
import fmt "fmt"
import strconv "strconv"

// ---- well known names: the values are those that the harness reads from the running code ----

define isWord(n *names.Name, a string) bool =
  len(n.words) == 1 && n.words[0] != nil && n.words[0].text == a && !n.words[0].initialism
define isTwo(n *names.Name, a, b string) bool =
  len(n.words) == 2 && n.words[0] != nil && n.words[0].text == a && !n.words[0].initialism &&
  n.words[1] != nil && n.words[1].text == b && !n.words[1].initialism

globalfact nomAdd: nomenclator.Add != nil && isWord(nomenclator.Add, "add")
globalfact nomDelete: nomenclator.Delete != nil && isWord(nomenclator.Delete, "delete")
globalfact nomGet: nomenclator.Get != nil && isWord(nomenclator.Get, "get")
globalfact nomList: nomenclator.List != nil && isWord(nomenclator.List, "list")
globalfact nomPost: nomenclator.Post != nil && isWord(nomenclator.Post, "post")
globalfact nomSearch: nomenclator.Search != nil && isWord(nomenclator.Search, "search")
globalfact nomUpdate: nomenclator.Update != nil && isWord(nomenclator.Update, "update")
globalfact nomItems: nomenclator.Items != nil && isWord(nomenclator.Items, "items")
globalfact nomBody: nomenclator.Body != nil && isWord(nomenclator.Body, "body")
globalfact nomRoot: nomenclator.Root != nil && isWord(nomenclator.Root, "root")
globalfact nomBoolean: nomenclator.Boolean != nil && isWord(nomenclator.Boolean, "boolean")
globalfact nomInteger: nomenclator.Integer != nil && isWord(nomenclator.Integer, "integer")
globalfact nomLong: nomenclator.Long != nil && isWord(nomenclator.Long, "long")
globalfact nomFloat: nomenclator.Float != nil && isWord(nomenclator.Float, "float")
globalfact nomString: nomenclator.String != nil && isWord(nomenclator.String, "string")
globalfact nomDate: nomenclator.Date != nil && isWord(nomenclator.Date, "date")
globalfact nomInterface: nomenclator.Interface != nil && isWord(nomenclator.Interface, "interface")
globalfact nomPage: nomenclator.Page != nil && isWord(nomenclator.Page, "page")
globalfact nomSize: nomenclator.Size != nil && isWord(nomenclator.Size, "size")
globalfact nomTotal: nomenclator.Total != nil && isWord(nomenclator.Total, "total")
globalfact nomAsyncDelete: nomenclator.AsyncDelete != nil && isTwo(nomenclator.AsyncDelete, "async", "delete")
globalfact nomAsyncUpdate: nomenclator.AsyncUpdate != nil && isTwo(nomenclator.AsyncUpdate, "async", "update")

// ---- methods ----

lemma allEqOne(a, b seq *names.Word) {allEq(a, b, 1)} : allEq(a, b, 0) && (allEq(a, b, 1) <==> wordEq(a[0], b[0]))
lemma allEqTwo(a, b seq *names.Word) {allEq(a, b, 2)} : allEq(a, b, 0) && (allEq(a, b, 1) <==> wordEq(a[0], b[0])) && (allEq(a, b, 2) <==> wordEq(a[0], b[0]) && wordEq(a[1], b[1]))

define named(n *names.Name, a string) bool = n != nil && isWord(n, a)
define named2(n *names.Name, a, b string) bool = n != nil && isTwo(n, a, b)
define isStandard(m *concepts.Method) bool =
  named(m.name, "add") || named(m.name, "delete") || named2(m.name, "async", "delete") || named(m.name, "get") || named(m.name, "list") ||
  named(m.name, "post") || named(m.name, "search") || named(m.name, "update") || named2(m.name, "async", "update")

func "(*concepts.Method).IsAdd" (m) -> (r)
  props P06
  requires m != nil
  is named(m.name, "add")
  nopanic

func "(*concepts.Method).IsDelete" (m) -> (r)
  props P06
  requires m != nil
  is named(m.name, "delete")
  nopanic

func "(*concepts.Method).IsAsyncDelete" (m) -> (r)
  props P06
  requires m != nil
  is named2(m.name, "async", "delete")
  nopanic

func "(*concepts.Method).IsGet" (m) -> (r)
  props P06
  requires m != nil
  is named(m.name, "get")
  nopanic

func "(*concepts.Method).IsList" (m) -> (r)
  props P06
  requires m != nil
  is named(m.name, "list")
  nopanic

func "(*concepts.Method).IsPost" (m) -> (r)
  props P06
  requires m != nil
  is named(m.name, "post")
  nopanic

func "(*concepts.Method).IsSearch" (m) -> (r)
  props P06
  requires m != nil
  is named(m.name, "search")
  nopanic

func "(*concepts.Method).IsUpdate" (m) -> (r)
  props P06
  requires m != nil
  is named(m.name, "update")
  nopanic

func "(*concepts.Method).IsAsyncUpdate" (m) -> (r)
  props P06
  requires m != nil
  is named2(m.name, "async", "update")
  nopanic

func "(*concepts.Method).IsAction" (m) -> (r)
  props P06
  requires m != nil
  is !isStandard(m)
  nopanic

func "(*concepts.Parameter).IsItems" (p) -> (r)
  props P06
  requires p != nil
  is p.owner != nil && (named(p.owner.name, "list") || named(p.owner.name, "search")) && named(p.name, "items")
  nopanic
func "(*concepts.Parameter).IsBody" (p) -> (r)
  props P06
  requires p != nil
  is p.owner != nil && (named(p.owner.name, "add") || named(p.owner.name, "get") || named(p.owner.name, "search") || named(p.owner.name, "update") || named2(p.owner.name, "async", "update")) &&
     named(p.name, "body")
  nopanic

// ---- types ----

func "(*concepts.Type).IsClass" (t) -> (r)
  props P06
  requires t != nil
  is t.kind == 1
  nopanic

func "(*concepts.Type).IsEnum" (t) -> (r)
  props P06
  requires t != nil
  is t.kind == 2
  nopanic

func "(*concepts.Type).IsInterface" (t) -> (r)
  props P06
  requires t != nil
  is t.kind == 3
  nopanic

func "(*concepts.Type).IsList" (t) -> (r)
  props P06
  requires t != nil
  is t.kind == 4
  nopanic

func "(*concepts.Type).IsMap" (t) -> (r)
  props P06
  requires t != nil
  is t.kind == 5
  nopanic

func "(*concepts.Type).IsStruct" (t) -> (r)
  props P06
  requires t != nil
  is t.kind == 1 || t.kind == 7
  nopanic
func "(*concepts.Type).IsScalar" (t) -> (r)
  props P06
  is t != nil && (t.kind == 6 || t.kind == 2 || t.kind == 3)
  nopanic
func "(*concepts.Type).IsBasicType" (t) -> (r)
  props P06
  is t != nil && (t.kind == 6 || t.kind == 3)
  nopanic
func "(concepts.TypeKind).String" (k) -> (r)
  props P06
  is k == 1 ? "class" : (k == 2 ? "enum" : (k == 3 ? "interface{}" : (k == 4 ? "list" : (k == 5 ? "map" : (k == 6 ? "scalar" : (k == 7 ? "struct" : "unknown"))))))
  nopanic

// the built-in type of a version
define builtin(v *concepts.Version, name string) *concepts.Type = has(v.types, name) ? v.types[name] : nil
lemma oneWord(a seq *names.Word) {textWords(a, 1)} : textWords(a, 0) == sempty && strJoin(textWords(a, 1), "_") == a[0].text


func "(*concepts.Version).Boolean" (v) -> (r)
  props P06
  requires v != nil && v.types != nil
  is builtin(v, "boolean")
  nopanic

func "(*concepts.Version).IntegerType" (v) -> (r)
  props P06
  requires v != nil && v.types != nil
  is builtin(v, "integer")
  nopanic

func "(*concepts.Version).LongType" (v) -> (r)
  props P06
  requires v != nil && v.types != nil
  is builtin(v, "long")
  nopanic

func "(*concepts.Version).StringType" (v) -> (r)
  props P06
  requires v != nil && v.types != nil
  is builtin(v, "string")
  nopanic

func "(*concepts.Version).FloatType" (v) -> (r)
  props P06
  requires v != nil && v.types != nil
  is builtin(v, "float")
  nopanic

func "(*concepts.Version).DateType" (v) -> (r)
  props P06
  requires v != nil && v.types != nil
  is builtin(v, "date")
  nopanic

func "(*concepts.Version).InterfaceType" (v) -> (r)
  props P06
  requires v != nil && v.types != nil
  is builtin(v, "interface")
  nopanic

func "(*concepts.Type).IsBoolean" (t) -> (r)
  props P06
  requires t != nil && (t.owner != nil ==> t.owner.types != nil)
  is t.owner != nil && t == builtin(t.owner, "boolean")
  nopanic

func "(*concepts.Type).IsInteger" (t) -> (r)
  props P06
  requires t != nil && (t.owner != nil ==> t.owner.types != nil)
  is t.owner != nil && t == builtin(t.owner, "integer")
  nopanic

func "(*concepts.Type).IsLong" (t) -> (r)
  props P06
  requires t != nil && (t.owner != nil ==> t.owner.types != nil)
  is t.owner != nil && t == builtin(t.owner, "long")
  nopanic

func "(*concepts.Type).IsFloat" (t) -> (r)
  props P06
  requires t != nil && (t.owner != nil ==> t.owner.types != nil)
  is t.owner != nil && t == builtin(t.owner, "float")
  nopanic

func "(*concepts.Type).IsString" (t) -> (r)
  props P06
  requires t != nil && (t.owner != nil ==> t.owner.types != nil)
  is t.owner != nil && t == builtin(t.owner, "string")
  nopanic

func "(*concepts.Type).IsDate" (t) -> (r)
  props P06
  requires t != nil && (t.owner != nil ==> t.owner.types != nil)
  is t.owner != nil && t == builtin(t.owner, "date")
  nopanic

func "(*concepts.Version).Root" (v) -> (r)
  props P05
  requires v != nil && v.resources != nil
  is has(v.resources, "root") ? v.resources["root"] : nil
  nopanic
func "(*concepts.Resource).IsRoot" (r) -> (b)
  props P05
  requires r != nil && (r.owner != nil ==> r.owner.resources != nil)
  is r.owner != nil && has(r.owner.resources, "root") && r == r.owner.resources["root"]
  nopanic

// ---- locators ----

func "(*concepts.Resource).VariableLocator" (c) -> (r)
  props P05
  requires okResourceLocators(c)
  ensures found: r != nil ==> r.variable && (exists i in 0..len(c.locators) :: c.locators[i] == r)
  ensures notFound: r == nil ==> (forall i in 0..len(c.locators) {c.locators[i]} :: !c.locators[i].variable)
  inv (i: idx): forall j in 0..i {c.locators[j]} :: !c.locators[j].variable
  nopanic

rec constLocs(a seq *concepts.Locator, n int) list =
  n <= 0 ? empty : (a[n - 1].variable ? constLocs(a, n - 1) : snoc(constLocs(a, n - 1), a[n - 1]))
func "(*concepts.Resource).ConstantLocators" (c) -> (r)
  props P05
  requires okResourceLocators(c)
  ensures constant: contents(r) == old(constLocs(elems(c.locators), len(c.locators)))
  inv (i: idx, r: []*concepts.Locator): contents(r) == old(constLocs(elems(c.locators), i))
  nopanic

// ---- annotations ----

rec firstAnn(a seq *concepts.Annotation, n int, name string) *concepts.Annotation =
  n <= 0 ? nil : (firstAnn(a, n - 1, name) != nil ? firstAnn(a, n - 1, name) : (a[n - 1].name == name ? a[n - 1] : nil))
lemma firstAnnStable(a seq *concepts.Annotation, i int, n int, name string) induct n {firstAnn(a, i, name), firstAnn(a, n, name)} :
  i <= n && firstAnn(a, i, name) != nil ==> firstAnn(a, n, name) == firstAnn(a, i, name)
lemma firstAnnOk(a seq *concepts.Annotation, n int, name string) induct n {firstAnn(a, n, name)} :
  firstAnn(a, n, name) != nil ==> firstAnn(a, n, name).name == name

define annsOk(s *concepts.annotatedSupport) bool =
  s != nil && (forall i in 0..len(s.annotations) {s.annotations[i]} :: s.annotations[i] != nil)

func "(*concepts.annotatedSupport).GetAnnotation" (s, name) -> (r)
  props P07, P12
  requires annsOk(s)
  is firstAnn(elems(s.annotations), len(s.annotations), name)
  inv (i: idx): firstAnn(elems(s.annotations), i, name) == nil
  inv (i: idx): i < len(s.annotations) ==> firstAnn(elems(s.annotations), i + 1, name) ==
    (firstAnn(elems(s.annotations), i, name) != nil ? firstAnn(elems(s.annotations), i, name) : (s.annotations[i].name == name ? s.annotations[i] : nil))
  nopanic

func "(*concepts.annotatedSupport).AddAnnotation" (s, a)
  props P12
  requires s != nil
  modifies s.annotations, s.annotations[*]
  ensures added: contents(s.annotations) == snoc(old(contents(s.annotations)), a)
  ensures last: len(s.annotations) == old(len(s.annotations)) + 1 && s.annotations[old(len(s.annotations))] == a
  ensures others: forall k in 0..old(len(s.annotations)) {s.annotations[k]} :: s.annotations[k] == old(s.annotations[k])
  nopanic

func "(*concepts.annotatedSupport).Annotations" (s) -> (r)
  props P12
  requires s != nil
  is s.annotations
  nopanic

func "(*concepts.Annotation).Name" (a) -> (r)
  props P12
  requires a != nil
  is a.name
  nopanic
func "(*concepts.Annotation).SetName" (a, value)
  props P12
  requires a != nil
  modifies a.name
  ensures a.name == value
  nopanic
func "(*concepts.Annotation).AddParameter" (a, name, value)
  props P12
  requires a != nil && a.parameters != nil
  modifies a.parameters[*]
  ensures added: has(a.parameters, name) && a.parameters[name] == value
  ensures others: forall k string {a.parameters[k]} :: k != name ==> a.parameters[k] == old(a.parameters[k]) && (has(a.parameters, k) <==> old(has(a.parameters, k)))
  nopanic
func "(*concepts.Annotation).FindParameter" (a, name) -> (r)
  props P07, P12
  requires a != nil
  is a.parameters != nil && has(a.parameters, name) ? a.parameters[name] : nil
  nopanic

// text of a value when it is written with %s
fun anyText(x any) string
axiom anyTextString: forall x any {anyText(x)} :: typeis(x, string) ==> anyText(x) == dyn(x, string)
extern func "fmt.Sprintf" (f, a) -> (r)
  ensures f == "%s" && len(a) == 1 ==> r == anyText(a[0])

define snake(n *names.Name) string = strJoin(lowerWords(elems(n.words), len(n.words)), "_")
define annParam(s *concepts.annotatedSupport, ann, key string) string =
  let a = firstAnn(elems(s.annotations), len(s.annotations), ann) ::
    (a == nil || a.parameters == nil || !has(a.parameters, key) || a.parameters[key] == nil ? "" : anyText(a.parameters[key]))

rec jsonName(s *concepts.annotatedSupport, n *names.Name) string =
  annParam(s, "json", "name") == "" ? snake(n) : annParam(s, "json", "name")
rec httpName(s *concepts.annotatedSupport, n *names.Name) string =
  annParam(s, "http", "name") == "" ? snake(n) : annParam(s, "http", "name")
rec segment(m *concepts.Method) string = isStandard(m) ? "" : httpName(&m.annotatedSupport, m.name)

func "(*http.BindingCalculator).AttributeName" (c, x) -> (r)
  props P07
  requires x != nil && wordsOk(x.name) && annsOk(&x.annotatedSupport)
  is jsonName(&x.annotatedSupport, x.name)
  nopanic

func "(*http.BindingCalculator).BodyParameterName" (c, x) -> (r)
  props P07
  requires x != nil && wordsOk(x.name) && annsOk(&x.annotatedSupport)
  is jsonName(&x.annotatedSupport, x.name)
  nopanic

func "(*http.BindingCalculator).EnumValueName" (c, x) -> (r)
  props P07
  requires x != nil && wordsOk(x.name) && annsOk(&x.annotatedSupport)
  is jsonName(&x.annotatedSupport, x.name)
  nopanic

func "(*http.BindingCalculator).ServiceSegment" (c, x) -> (r)
  props P07
  requires x != nil && wordsOk(x.name) && annsOk(&x.annotatedSupport)
  is httpName(&x.annotatedSupport, x.name)
  nopanic

func "(*http.BindingCalculator).VersionSegment" (c, x) -> (r)
  props P07
  requires x != nil && wordsOk(x.name) && annsOk(&x.annotatedSupport)
  is httpName(&x.annotatedSupport, x.name)
  nopanic

func "(*http.BindingCalculator).LocatorSegment" (c, x) -> (r)
  props P07
  requires x != nil && wordsOk(x.name) && annsOk(&x.annotatedSupport)
  is httpName(&x.annotatedSupport, x.name)
  nopanic

func "(*http.BindingCalculator).QueryParameterName" (c, x) -> (r)
  props P07
  requires x != nil && wordsOk(x.name) && annsOk(&x.annotatedSupport)
  is annParam(&x.annotatedSupport, "http", "name") != "" ? annParam(&x.annotatedSupport, "http", "name") :
     (annParam(&x.annotatedSupport, "json", "name") != "" ? annParam(&x.annotatedSupport, "json", "name") : snake(x.name))
  nopanic
func "(*http.BindingCalculator).MethodSegment" (c, x) -> (r)
  props P07
  requires x != nil && wordsOk(x.name) && annsOk(&x.annotatedSupport)
  is segment(x)
  nopanic

rec httpMethod(m *concepts.Method) string =
  named(m.name, "delete") || named2(m.name, "async", "delete") ? "DELETE" :
     (named(m.name, "get") || named(m.name, "list") ? "GET" :
     (named(m.name, "update") || named2(m.name, "async", "update") ? "PATCH" : "POST"))
func "(*http.BindingCalculator).Method" (c, m) -> (r)
  props P07
  requires m != nil
  is httpMethod(m)
  nopanic

fun decimal(n int) string
extern func "strconv.Itoa" (n) -> (r) is decimal(n)
func "(*http.BindingCalculator).DefaultStatus" (c, m) -> (r)
  props P07
  requires m != nil
  is decimal(named(m.name, "add") || named(m.name, "post") ? 201 :
     (named2(m.name, "async", "update") || named2(m.name, "async", "delete") ? 202 :
     (named(m.name, "delete") ? 204 : 200)))
  nopanic

// ---- placement of parameters ----

rec inParams(a seq *concepts.Parameter, n int) list =
  n <= 0 ? empty : (a[n - 1].in ? snoc(inParams(a, n - 1), a[n - 1]) : inParams(a, n - 1))
rec outParams(a seq *concepts.Parameter, n int) list =
  n <= 0 ? empty : (a[n - 1].out ? snoc(outParams(a, n - 1), a[n - 1]) : outParams(a, n - 1))
define scalarType(t *concepts.Type) bool = t != nil && (t.kind == 6 || t.kind == 2 || t.kind == 3)
rec inScalars(a seq *concepts.Parameter, n int) list =
  n <= 0 ? empty : (a[n - 1].in && scalarType(a[n - 1].typ) ? snoc(inScalars(a, n - 1), a[n - 1]) : inScalars(a, n - 1))
rec inOthers(a seq *concepts.Parameter, n int) list =
  n <= 0 ? empty : (a[n - 1].in && !scalarType(a[n - 1].typ) ? snoc(inOthers(a, n - 1), a[n - 1]) : inOthers(a, n - 1))
define paramsOk(m *concepts.Method) bool = m != nil && (forall i in 0..len(m.parameters) {m.parameters[i]} :: m.parameters[i] != nil)

func "(*http.BindingCalculator).RequestParameters" (c, m) -> (r)
  props P07
  requires paramsOk(m)
  ensures placed: contents(r) == old(inParams(elems(m.parameters), len(m.parameters)))
  inv (i: idx, r: []*concepts.Parameter): contents(r) == old(inParams(elems(m.parameters), i))
  nopanic
func "(*http.BindingCalculator).ResponseParameters" (c, m) -> (r)
  props P07
  requires paramsOk(m)
  ensures placed: contents(r) == old(outParams(elems(m.parameters), len(m.parameters)))
  inv (i: idx, r: []*concepts.Parameter): contents(r) == old(outParams(elems(m.parameters), i))
  nopanic
func "(*http.BindingCalculator).ResponseBodyParameters" (c, m) -> (r)
  props P07
  requires paramsOk(m)
  ensures placed: contents(r) == old(outParams(elems(m.parameters), len(m.parameters)))
  inv (i: idx, r: []*concepts.Parameter): contents(r) == old(outParams(elems(m.parameters), i))
  nopanic
func "(*http.BindingCalculator).RequestQueryParameters" (c, m) -> (r)
  props P07
  requires paramsOk(m)
  ensures placed: contents(r) == (old(isStandard(m)) ? old(inScalars(elems(m.parameters), len(m.parameters))) : empty)
  inv (i: idx, r: []*concepts.Parameter): contents(r) == old(inScalars(elems(m.parameters), i))
  nopanic
func "(*http.BindingCalculator).RequestBodyParameters" (c, m) -> (r)
  props P07
  requires paramsOk(m)
  ensures placed: contents(r) == (old(isStandard(m)) ? old(inOthers(elems(m.parameters), len(m.parameters))) : old(inParams(elems(m.parameters), len(m.parameters))))
  inv (i: idx, r: []*concepts.Parameter): contents(r) == old(inOthers(elems(m.parameters), i))
  inv (i: idx, r: []*concepts.Parameter): contents(r) == old(inParams(elems(m.parameters), i))
  nopanic
