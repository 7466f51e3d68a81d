// Contracts of the checks of the conventions of methods. Written by tools/gen_checks.py.

import language "github.com/openshift-online/ocm-api-metamodel/pkg/language"

define isStructT(t *concepts.Type) bool = t.kind == 1 || t.kind == 7
define isListT(t *concepts.Type) bool = t.kind == 4

define okCheck(r *language.Reader, m *concepts.Method) bool =
  r != nil && r.reporter != nil && paramsOk(m) &&
  (forall i in 0..len(m.parameters) {m.parameters[i]} :: m.parameters[i].typ != nil && wordsOk(m.parameters[i].name)) &&
  m.owner != nil && m.owner.owner != nil && m.owner.owner.types != nil

define pageOk(m *concepts.Method, p *concepts.Parameter, dflt int) bool =
  p == nil || p.typ == builtin(m.owner.owner, "integer") && p.in && p.out && p.dflt == box(dflt)
define totalOk(m *concepts.Method, p *concepts.Parameter) bool =
  p == nil || p.typ == builtin(m.owner.owner, "integer") && !p.in && p.out
define pOf(m *concepts.Method, name *names.Name) *concepts.Parameter =
  firstParam(elems(m.parameters), len(m.parameters), name)

func "(*language.Reader).checkRequestParameter" (r, m, name, dflt)
  props P08
  requires okCheck(r, m) && wordsOk(name)
  modifies r.reporter.errors
  ensures monotone: r.reporter.errors >= old(r.reporter.errors)
  ensures reported: r.reporter.errors == old(r.reporter.errors) <==> pageOk(m, pOf(m, name), dflt)

func "(*language.Reader).checkResponseParameter" (r, m, name)
  props P08
  requires okCheck(r, m) && wordsOk(name)
  modifies r.reporter.errors
  ensures monotone: r.reporter.errors >= old(r.reporter.errors)
  ensures reported: r.reporter.errors == old(r.reporter.errors) <==> totalOk(m, pOf(m, name))

define paged(m *concepts.Method) bool =
  pageOk(m, pOf(m, nomenclator.Page), 1) && pageOk(m, pOf(m, nomenclator.Size), 100) &&
  totalOk(m, pOf(m, nomenclator.Total)) && pOf(m, nomenclator.Items) != nil

rec allScalarStruct(a seq *concepts.Parameter, n int) bool = n <= 0 ? true : allScalarStruct(a, n - 1) && (scalarType(a[n - 1].typ) || isStructT(a[n - 1].typ))
rec countStruct(a seq *concepts.Parameter, n int) int = n <= 0 ? 0 : countStruct(a, n - 1) + (isStructT(a[n - 1].typ) ? 1 : 0)
rec allInOut(a seq *concepts.Parameter, n int) bool = n <= 0 ? true : allInOut(a, n - 1) && (a[n - 1].in && a[n - 1].out)
lemma allInOutSame(a, b seq *concepts.Parameter, n int) induct n {allInOut(a, n), allInOut(b, n)} :
  (forall j in 0..n {a[j]} {b[j]} :: a[j] == b[j]) ==> (allInOut(a, n) <==> allInOut(b, n))
rec eachStructInOut(a seq *concepts.Parameter, n int) bool = n <= 0 ? true : eachStructInOut(a, n - 1) && ((isStructT(a[n - 1].typ)) ==> (a[n - 1].in && a[n - 1].out))
rec allBody(a seq *concepts.Parameter, n int) bool = n <= 0 ? true : allBody(a, n - 1) && (named(a[n - 1].name, "body"))
lemma allBodySame(a, b seq *concepts.Parameter, n int) induct n {allBody(a, n), allBody(b, n)} :
  (forall j in 0..n {a[j]} {b[j]} :: a[j] == b[j]) ==> (allBody(a, n) <==> allBody(b, n))
rec eachStructBody(a seq *concepts.Parameter, n int) bool = n <= 0 ? true : eachStructBody(a, n - 1) && ((isStructT(a[n - 1].typ)) ==> (named(a[n - 1].name, "body")))

define conformsAdd(m *concepts.Method) bool =
  allScalarStruct(elems(m.parameters), len(m.parameters)) &&
  countStruct(elems(m.parameters), len(m.parameters)) == 1 &&
  eachStructInOut(elems(m.parameters), len(m.parameters)) &&
  eachStructBody(elems(m.parameters), len(m.parameters))
func "(*language.Reader).checkAdd" (r, m)
  props P08
  heavy
  requires okCheck(r, m)
  modifies r.reporter.errors
  hide firstParamFound, firstParamKept, firstParamAt
  ensures monotone: r.reporter.errors >= old(r.reporter.errors)
  ensures reported: r.reporter.errors == old(r.reporter.errors) <==> conformsAdd(m)
  inv r.reporter.errors >= atloop(r.reporter.errors)
  inv (s: []*concepts.Parameter): forall j in 0..len(s) {s[j]} :: s[j] != nil && s[j].typ != nil && wordsOk(s[j].name)
  inv (i: idx): r.reporter.errors == atloop(r.reporter.errors) <==> old(allScalarStruct(elems(m.parameters), i))
  inv (i: idx, s: []*concepts.Parameter): len(s) == old(countStruct(elems(m.parameters), i))
  inv (i: idx, s: []*concepts.Parameter): allInOut(elems(s), len(s)) <==> old(eachStructInOut(elems(m.parameters), i))
  inv (i: idx, s: []*concepts.Parameter): r.reporter.errors == atloop(r.reporter.errors) <==> allInOut(elems(s), i)
  inv (i: idx, s: []*concepts.Parameter): allBody(elems(s), len(s)) <==> old(eachStructBody(elems(m.parameters), i))
  inv (i: idx, s: []*concepts.Parameter): r.reporter.errors == atloop(r.reporter.errors) <==> allBody(elems(s), i)

rec allScalar(a seq *concepts.Parameter, n int) bool = n <= 0 ? true : allScalar(a, n - 1) && (scalarType(a[n - 1].typ))
rec allOnlyIn(a seq *concepts.Parameter, n int) bool = n <= 0 ? true : allOnlyIn(a, n - 1) && (a[n - 1].in && !a[n - 1].out)

define conformsDelete(m *concepts.Method) bool =
  allScalar(elems(m.parameters), len(m.parameters)) &&
  allOnlyIn(elems(m.parameters), len(m.parameters))
func "(*language.Reader).checkDelete" (r, m)
  props P08
  heavy
  requires okCheck(r, m)
  modifies r.reporter.errors
  hide firstParamFound, firstParamKept, firstParamAt
  ensures monotone: r.reporter.errors >= old(r.reporter.errors)
  ensures reported: r.reporter.errors == old(r.reporter.errors) <==> conformsDelete(m)
  inv r.reporter.errors >= atloop(r.reporter.errors)
  inv (s: []*concepts.Parameter): forall j in 0..len(s) {s[j]} :: s[j] != nil && s[j].typ != nil && wordsOk(s[j].name)
  inv (i: idx): r.reporter.errors == atloop(r.reporter.errors) <==> old(allScalar(elems(m.parameters), i))
  inv (i: idx): r.reporter.errors == atloop(r.reporter.errors) <==> old(allOnlyIn(elems(m.parameters), i))

rec eachScalarOnlyIn(a seq *concepts.Parameter, n int) bool = n <= 0 ? true : eachScalarOnlyIn(a, n - 1) && ((scalarType(a[n - 1].typ)) ==> (a[n - 1].in && !a[n - 1].out))
rec allOnlyOut(a seq *concepts.Parameter, n int) bool = n <= 0 ? true : allOnlyOut(a, n - 1) && (a[n - 1].out && !a[n - 1].in)
lemma allOnlyOutSame(a, b seq *concepts.Parameter, n int) induct n {allOnlyOut(a, n), allOnlyOut(b, n)} :
  (forall j in 0..n {a[j]} {b[j]} :: a[j] == b[j]) ==> (allOnlyOut(a, n) <==> allOnlyOut(b, n))
rec eachStructOnlyOut(a seq *concepts.Parameter, n int) bool = n <= 0 ? true : eachStructOnlyOut(a, n - 1) && ((isStructT(a[n - 1].typ)) ==> (a[n - 1].out && !a[n - 1].in))

define conformsGet(m *concepts.Method) bool =
  allScalarStruct(elems(m.parameters), len(m.parameters)) &&
  countStruct(elems(m.parameters), len(m.parameters)) == 1 &&
  eachScalarOnlyIn(elems(m.parameters), len(m.parameters)) &&
  eachStructOnlyOut(elems(m.parameters), len(m.parameters)) &&
  eachStructBody(elems(m.parameters), len(m.parameters))
func "(*language.Reader).checkGet" (r, m)
  props P08
  heavy
  requires okCheck(r, m)
  modifies r.reporter.errors
  hide firstParamFound, firstParamKept, firstParamAt
  ensures monotone: r.reporter.errors >= old(r.reporter.errors)
  ensures reported: r.reporter.errors == old(r.reporter.errors) <==> conformsGet(m)
  inv r.reporter.errors >= atloop(r.reporter.errors)
  inv (s: []*concepts.Parameter): forall j in 0..len(s) {s[j]} :: s[j] != nil && s[j].typ != nil && wordsOk(s[j].name)
  inv (i: idx): r.reporter.errors == atloop(r.reporter.errors) <==> old(allScalarStruct(elems(m.parameters), i))
  inv (i: idx, s: []*concepts.Parameter): len(s) == old(countStruct(elems(m.parameters), i))
  inv (i: idx): r.reporter.errors == atloop(r.reporter.errors) <==> old(eachScalarOnlyIn(elems(m.parameters), i))
  inv (i: idx, s: []*concepts.Parameter): allOnlyOut(elems(s), len(s)) <==> old(eachStructOnlyOut(elems(m.parameters), i))
  inv (i: idx, s: []*concepts.Parameter): r.reporter.errors == atloop(r.reporter.errors) <==> allOnlyOut(elems(s), i)
  inv (i: idx, s: []*concepts.Parameter): allBody(elems(s), len(s)) <==> old(eachStructBody(elems(m.parameters), i))
  inv (i: idx, s: []*concepts.Parameter): r.reporter.errors == atloop(r.reporter.errors) <==> allBody(elems(s), i)

rec allScalarList(a seq *concepts.Parameter, n int) bool = n <= 0 ? true : allScalarList(a, n - 1) && (scalarType(a[n - 1].typ) || isListT(a[n - 1].typ))
rec countList(a seq *concepts.Parameter, n int) int = n <= 0 ? 0 : countList(a, n - 1) + (isListT(a[n - 1].typ) ? 1 : 0)
rec eachListOnlyOut(a seq *concepts.Parameter, n int) bool = n <= 0 ? true : eachListOnlyOut(a, n - 1) && ((isListT(a[n - 1].typ)) ==> (a[n - 1].out && !a[n - 1].in))
rec allItems(a seq *concepts.Parameter, n int) bool = n <= 0 ? true : allItems(a, n - 1) && (named(a[n - 1].name, "items"))
lemma allItemsSame(a, b seq *concepts.Parameter, n int) induct n {allItems(a, n), allItems(b, n)} :
  (forall j in 0..n {a[j]} {b[j]} :: a[j] == b[j]) ==> (allItems(a, n) <==> allItems(b, n))
rec eachListItems(a seq *concepts.Parameter, n int) bool = n <= 0 ? true : eachListItems(a, n - 1) && ((isListT(a[n - 1].typ)) ==> (named(a[n - 1].name, "items")))

define conformsList(m *concepts.Method) bool =
  allScalarList(elems(m.parameters), len(m.parameters)) &&
  countList(elems(m.parameters), len(m.parameters)) == 1 &&
  eachListOnlyOut(elems(m.parameters), len(m.parameters)) &&
  eachListItems(elems(m.parameters), len(m.parameters)) &&
  paged(m)
func "(*language.Reader).checkList" (r, m)
  props P08
  heavy
  requires okCheck(r, m)
  modifies r.reporter.errors
  hide firstParamFound, firstParamKept, firstParamAt
  ensures monotone: r.reporter.errors >= old(r.reporter.errors)
  ensures reported: r.reporter.errors == old(r.reporter.errors) <==> conformsList(m)
  inv r.reporter.errors >= atloop(r.reporter.errors)
  inv (s: []*concepts.Parameter): forall j in 0..len(s) {s[j]} :: s[j] != nil && s[j].typ != nil && wordsOk(s[j].name)
  inv (i: idx): r.reporter.errors == atloop(r.reporter.errors) <==> old(allScalarList(elems(m.parameters), i))
  inv (i: idx, s: []*concepts.Parameter): len(s) == old(countList(elems(m.parameters), i))
  inv (i: idx, s: []*concepts.Parameter): allOnlyOut(elems(s), len(s)) <==> old(eachListOnlyOut(elems(m.parameters), i))
  inv (i: idx, s: []*concepts.Parameter): r.reporter.errors == atloop(r.reporter.errors) <==> allOnlyOut(elems(s), i)
  inv (i: idx, s: []*concepts.Parameter): allItems(elems(s), len(s)) <==> old(eachListItems(elems(m.parameters), i))
  inv (i: idx, s: []*concepts.Parameter): r.reporter.errors == atloop(r.reporter.errors) <==> allItems(elems(s), i)

rec countIn(a seq *concepts.Parameter, n int) int = n <= 0 ? 0 : countIn(a, n - 1) + (a[n - 1].in ? 1 : 0)
rec countOut(a seq *concepts.Parameter, n int) int = n <= 0 ? 0 : countOut(a, n - 1) + (a[n - 1].out ? 1 : 0)
rec allStruct(a seq *concepts.Parameter, n int) bool = n <= 0 ? true : allStruct(a, n - 1) && (isStructT(a[n - 1].typ))
lemma allStructSame(a, b seq *concepts.Parameter, n int) induct n {allStruct(a, n), allStruct(b, n)} :
  (forall j in 0..n {a[j]} {b[j]} :: a[j] == b[j]) ==> (allStruct(a, n) <==> allStruct(b, n))
rec eachInStruct(a seq *concepts.Parameter, n int) bool = n <= 0 ? true : eachInStruct(a, n - 1) && ((a[n - 1].in) ==> (isStructT(a[n - 1].typ)))
rec eachOutStruct(a seq *concepts.Parameter, n int) bool = n <= 0 ? true : eachOutStruct(a, n - 1) && ((a[n - 1].out) ==> (isStructT(a[n - 1].typ)))

define conformsPost(m *concepts.Method) bool =
  countIn(elems(m.parameters), len(m.parameters)) <= 1 &&
  countOut(elems(m.parameters), len(m.parameters)) == 1 &&
  eachInStruct(elems(m.parameters), len(m.parameters)) &&
  eachOutStruct(elems(m.parameters), len(m.parameters))
func "(*language.Reader).checkPost" (r, m)
  props P08
  heavy
  requires okCheck(r, m)
  modifies r.reporter.errors
  hide firstParamFound, firstParamKept, firstParamAt
  ensures monotone: r.reporter.errors >= old(r.reporter.errors)
  ensures reported: r.reporter.errors == old(r.reporter.errors) <==> conformsPost(m)
  inv r.reporter.errors >= atloop(r.reporter.errors)
  inv (s: []*concepts.Parameter): forall j in 0..len(s) {s[j]} :: s[j] != nil && s[j].typ != nil && wordsOk(s[j].name)
  inv (i: idx, s: []*concepts.Parameter): len(s) == old(countIn(elems(m.parameters), i))
  inv (i: idx, s: []*concepts.Parameter): len(s) == old(countOut(elems(m.parameters), i))
  inv (i: idx, s: []*concepts.Parameter): allStruct(elems(s), len(s)) <==> old(eachInStruct(elems(m.parameters), i))
  inv (i: idx, s: []*concepts.Parameter): r.reporter.errors == atloop(r.reporter.errors) <==> allStruct(elems(s), i)
  inv (i: idx, s: []*concepts.Parameter): allStruct(elems(s), len(s)) <==> old(eachOutStruct(elems(m.parameters), i))

lemma allScalarListSame(a, b seq *concepts.Parameter, n int) induct n {allScalarList(a, n), allScalarList(b, n)} :
  (forall j in 0..n {a[j]} {b[j]} :: a[j] == b[j]) ==> (allScalarList(a, n) <==> allScalarList(b, n))
rec eachOutScalarList(a seq *concepts.Parameter, n int) bool = n <= 0 ? true : eachOutScalarList(a, n - 1) && ((a[n - 1].out) ==> (scalarType(a[n - 1].typ) || isListT(a[n - 1].typ)))
lemma allScalarStructSame(a, b seq *concepts.Parameter, n int) induct n {allScalarStruct(a, n), allScalarStruct(b, n)} :
  (forall j in 0..n {a[j]} {b[j]} :: a[j] == b[j]) ==> (allScalarStruct(a, n) <==> allScalarStruct(b, n))
rec eachInScalarStruct(a seq *concepts.Parameter, n int) bool = n <= 0 ? true : eachInScalarStruct(a, n - 1) && ((a[n - 1].in) ==> (scalarType(a[n - 1].typ) || isStructT(a[n - 1].typ)))
rec countStructIn(a seq *concepts.Parameter, n int) int = n <= 0 ? 0 : countStructIn(a, n - 1) + (isStructT(a[n - 1].typ) && a[n - 1].in ? 1 : 0)
rec allOnlyInBody(a seq *concepts.Parameter, n int) bool = n <= 0 ? true : allOnlyInBody(a, n - 1) && (a[n - 1].in && !a[n - 1].out && named(a[n - 1].name, "body"))
lemma allOnlyInBodySame(a, b seq *concepts.Parameter, n int) induct n {allOnlyInBody(a, n), allOnlyInBody(b, n)} :
  (forall j in 0..n {a[j]} {b[j]} :: a[j] == b[j]) ==> (allOnlyInBody(a, n) <==> allOnlyInBody(b, n))
rec eachStructInOnlyInBody(a seq *concepts.Parameter, n int) bool = n <= 0 ? true : eachStructInOnlyInBody(a, n - 1) && ((isStructT(a[n - 1].typ) && a[n - 1].in) ==> (a[n - 1].in && !a[n - 1].out && named(a[n - 1].name, "body")))

define conformsSearch(m *concepts.Method) bool =
  eachOutScalarList(elems(m.parameters), len(m.parameters)) &&
  eachInScalarStruct(elems(m.parameters), len(m.parameters)) &&
  countList(elems(m.parameters), len(m.parameters)) == 1 &&
  eachListOnlyOut(elems(m.parameters), len(m.parameters)) &&
  eachListItems(elems(m.parameters), len(m.parameters)) &&
  countStructIn(elems(m.parameters), len(m.parameters)) == 1 &&
  eachStructInOnlyInBody(elems(m.parameters), len(m.parameters)) &&
  paged(m)
func "(*language.Reader).checkSearch" (r, m)
  props P08
  heavy
  requires okCheck(r, m)
  modifies r.reporter.errors
  hide firstParamFound, firstParamKept, firstParamAt
  ensures monotone: r.reporter.errors >= old(r.reporter.errors)
  ensures reported: r.reporter.errors == old(r.reporter.errors) <==> conformsSearch(m)
  inv r.reporter.errors >= atloop(r.reporter.errors)
  inv (s: []*concepts.Parameter): forall j in 0..len(s) {s[j]} :: s[j] != nil && s[j].typ != nil && wordsOk(s[j].name)
  inv (i: idx, s: []*concepts.Parameter): allScalarList(elems(s), len(s)) <==> old(eachOutScalarList(elems(m.parameters), i))
  inv (i: idx, s: []*concepts.Parameter): r.reporter.errors == atloop(r.reporter.errors) <==> allScalarList(elems(s), i)
  inv (i: idx, s: []*concepts.Parameter): allScalarStruct(elems(s), len(s)) <==> old(eachInScalarStruct(elems(m.parameters), i))
  inv (i: idx, s: []*concepts.Parameter): r.reporter.errors == atloop(r.reporter.errors) <==> allScalarStruct(elems(s), i)
  inv (i: idx, s: []*concepts.Parameter): len(s) == old(countList(elems(m.parameters), i))
  inv (i: idx, s: []*concepts.Parameter): allOnlyOut(elems(s), len(s)) <==> old(eachListOnlyOut(elems(m.parameters), i))
  inv (i: idx, s: []*concepts.Parameter): r.reporter.errors == atloop(r.reporter.errors) <==> allOnlyOut(elems(s), i)
  inv (i: idx, s: []*concepts.Parameter): allItems(elems(s), len(s)) <==> old(eachListItems(elems(m.parameters), i))
  inv (i: idx, s: []*concepts.Parameter): r.reporter.errors == atloop(r.reporter.errors) <==> allItems(elems(s), i)
  inv (i: idx, s: []*concepts.Parameter): len(s) == old(countStructIn(elems(m.parameters), i))
  inv (i: idx, s: []*concepts.Parameter): allOnlyInBody(elems(s), len(s)) <==> old(eachStructInOnlyInBody(elems(m.parameters), i))
  inv (i: idx, s: []*concepts.Parameter): r.reporter.errors == atloop(r.reporter.errors) <==> allOnlyInBody(elems(s), i)

rec allScalarStructList(a seq *concepts.Parameter, n int) bool = n <= 0 ? true : allScalarStructList(a, n - 1) && (scalarType(a[n - 1].typ) || isStructT(a[n - 1].typ) || isListT(a[n - 1].typ))
rec countStructList(a seq *concepts.Parameter, n int) int = n <= 0 ? 0 : countStructList(a, n - 1) + (isStructT(a[n - 1].typ) || isListT(a[n - 1].typ) ? 1 : 0)
rec eachStructListInOut(a seq *concepts.Parameter, n int) bool = n <= 0 ? true : eachStructListInOut(a, n - 1) && ((isStructT(a[n - 1].typ) || isListT(a[n - 1].typ)) ==> (a[n - 1].in && a[n - 1].out))
rec eachStructListBody(a seq *concepts.Parameter, n int) bool = n <= 0 ? true : eachStructListBody(a, n - 1) && ((isStructT(a[n - 1].typ) || isListT(a[n - 1].typ)) ==> (named(a[n - 1].name, "body")))

define conformsUpdate(m *concepts.Method) bool =
  allScalarStructList(elems(m.parameters), len(m.parameters)) &&
  countStructList(elems(m.parameters), len(m.parameters)) == 1 &&
  eachScalarOnlyIn(elems(m.parameters), len(m.parameters)) &&
  eachStructListInOut(elems(m.parameters), len(m.parameters)) &&
  eachStructListBody(elems(m.parameters), len(m.parameters))
func "(*language.Reader).checkUpdate" (r, m)
  props P08
  heavy
  requires okCheck(r, m)
  modifies r.reporter.errors
  hide firstParamFound, firstParamKept, firstParamAt
  ensures monotone: r.reporter.errors >= old(r.reporter.errors)
  ensures reported: r.reporter.errors == old(r.reporter.errors) <==> conformsUpdate(m)
  inv r.reporter.errors >= atloop(r.reporter.errors)
  inv (s: []*concepts.Parameter): forall j in 0..len(s) {s[j]} :: s[j] != nil && s[j].typ != nil && wordsOk(s[j].name)
  inv (i: idx): r.reporter.errors == atloop(r.reporter.errors) <==> old(allScalarStructList(elems(m.parameters), i))
  inv (i: idx, s: []*concepts.Parameter): len(s) == old(countStructList(elems(m.parameters), i))
  inv (i: idx): r.reporter.errors == atloop(r.reporter.errors) <==> old(eachScalarOnlyIn(elems(m.parameters), i))
  inv (i: idx, s: []*concepts.Parameter): allInOut(elems(s), len(s)) <==> old(eachStructListInOut(elems(m.parameters), i))
  inv (i: idx, s: []*concepts.Parameter): r.reporter.errors == atloop(r.reporter.errors) <==> allInOut(elems(s), i)
  inv (i: idx, s: []*concepts.Parameter): allBody(elems(s), len(s)) <==> old(eachStructListBody(elems(m.parameters), i))
  inv (i: idx, s: []*concepts.Parameter): r.reporter.errors == atloop(r.reporter.errors) <==> allBody(elems(s), i)


// The default value of a parameter has the type of the parameter:
define defaultOk(p *concepts.Parameter, v *concepts.Version) bool =
  p.dflt == nil ||
  (typeis(p.dflt, bool) && (builtin(v, "boolean") == nil || p.typ == builtin(v, "boolean"))) ||
  (typeis(p.dflt, int) && (builtin(v, "integer") == nil || p.typ == builtin(v, "integer"))) ||
  (typeis(p.dflt, string) && (builtin(v, "string") == nil || p.typ == builtin(v, "string")))

func "(*language.Reader).checkParameter" (r, p)
  props P08
  requires r != nil && r.reporter != nil && p != nil && p.owner != nil && p.owner.owner != nil && p.owner.owner.owner != nil && p.owner.owner.owner.types != nil
  modifies r.reporter.errors
  ensures monotone: r.reporter.errors >= old(r.reporter.errors)
  ensures reported: r.reporter.errors == old(r.reporter.errors) <==> defaultOk(p, p.owner.owner.owner)

define conforms(m *concepts.Method) bool =
  (named(m.name, "add") ==> conformsAdd(m)) &&
  (named(m.name, "delete") || named2(m.name, "async", "delete") ==> conformsDelete(m)) &&
  (named(m.name, "get") ==> conformsGet(m)) &&
  (named(m.name, "list") ==> conformsList(m)) &&
  (named(m.name, "post") ==> conformsPost(m)) &&
  (named(m.name, "search") ==> conformsSearch(m)) &&
  (named(m.name, "update") || named2(m.name, "async", "update") ==> conformsUpdate(m))

rec allDefaults(a seq *concepts.Parameter, v *concepts.Version, n int) bool =
  n <= 0 ? true : allDefaults(a, v, n - 1) && defaultOk(a[n - 1], v)

define okMethod(r *language.Reader, m *concepts.Method) bool =
  okCheck(r, m) && wordsOk(m.name) &&
  (forall i in 0..len(m.parameters) {m.parameters[i]} :: m.parameters[i].owner == m)
define methodFine(m *concepts.Method) bool =
  conforms(m) && allDefaults(elems(m.parameters), m.owner.owner, len(m.parameters))

func "(*language.Reader).checkMethod" (r, m)
  props P08
  requires okMethod(r, m)
  modifies r.reporter.errors
  ensures monotone: r.reporter.errors >= old(r.reporter.errors)
  ensures reported: r.reporter.errors == old(r.reporter.errors) <==> methodFine(m)
  inv r.reporter.errors >= atloop(r.reporter.errors)
  inv (i: idx): r.reporter.errors == atloop(r.reporter.errors) <==> old(allDefaults(elems(m.parameters), m.owner.owner, i))

rec allMethods(a seq *concepts.Method, n int) bool = n <= 0 ? true : allMethods(a, n - 1) && methodFine(a[n - 1])
define okRes(r *language.Reader, s *concepts.Resource) bool =
  r != nil && r.reporter != nil && s != nil && (forall i in 0..len(s.methods) {s.methods[i]} :: okMethod(r, s.methods[i]))

func "(*language.Reader).checkResource" (r, s)
  props P08
  requires okRes(r, s)
  modifies r.reporter.errors
  ensures monotone: r.reporter.errors >= old(r.reporter.errors)
  ensures reported: r.reporter.errors == old(r.reporter.errors) <==> allMethods(elems(s.methods), len(s.methods))
  inv r.reporter.errors >= atloop(r.reporter.errors)
  inv (i: idx): r.reporter.errors == atloop(r.reporter.errors) <==> old(allMethods(elems(s.methods), i))
