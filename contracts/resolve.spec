// Contracts of the resolution of references and of the declarations (P11, P12).
//
// The results of the nodes of the syntax tree are fields of the contexts built by ANTLR: they are reached through
// interfaces that only one type implements.

import language "github.com/openshift-online/ocm-api-metamodel/pkg/language"

define readerOk(r *language.Reader) bool =
  r != nil && r.reporter != nil && r.service != nil && wordsOk(r.service.name) &&
  okVersionTypes(r.version) && wordsOk(r.version.name) && okResources(r.version) && okErrors(r.version) &&
  r.undefinedTypes != r.version.types && r.undefinedResources != r.version.resources && r.undefinedErrors != r.version.errors &&
  r.undefinedTypes != nil && r.undefinedResources != nil && r.undefinedErrors != nil
define okResources(c *concepts.Version) bool =
  c != nil && c.resources != nil && (forall k string {c.resources[k]} :: has(c.resources, k) ==> c.resources[k] != nil && wordsOk(c.resources[k].name))
define okErrors(c *concepts.Version) bool =
  c != nil && c.errors != nil && (forall k string {c.errors[k]} :: has(c.errors, k) ==> c.errors[k] != nil && wordsOk(c.errors[k].name))

define nameOf(x language.IIdentifierContext) *names.Name = dyn(x, *language.IdentifierContext).result
define idOk(x language.IIdentifierContext) bool = x != nil && typeis(x, *language.IdentifierContext) && dyn(x, *language.IdentifierContext) != nil && wordsOk(nameOf(x))

// Key of a name that is used but not defined yet.
define undefKey(r *language.Reader, n *names.Name) string = nameText(r.service.name) + "/" + nameText(r.version.name) + "/" + nameText(n)

func "(*language.Reader).undefinedKey" (r, name) -> (k)
  props P11
  requires readerOk(r) && wordsOk(name)
  is undefKey(r, name)
  nopanic

func "(*language.Reader).isUndefinedType" (r, x) -> (b)
  props P11
  requires readerOk(r) && x != nil && wordsOk(x.name)
  ensures known: b <==> has(r.undefinedTypes, undefKey(r, x.name))
  nopanic
func "(*language.Reader).addUndefinedType" (r, x)
  props P11
  requires readerOk(r) && x != nil && wordsOk(x.name)
  modifies r.undefinedTypes[*]
  ensures added: has(r.undefinedTypes, undefKey(r, x.name))
  ensures others: forall k string {has(r.undefinedTypes, k)} :: k != undefKey(r, x.name) ==> (has(r.undefinedTypes, k) <==> old(has(r.undefinedTypes, k)))
  nopanic
func "(*language.Reader).removeUndefinedType" (r, x)
  props P11
  requires readerOk(r) && x != nil && wordsOk(x.name)
  modifies r.undefinedTypes[*]
  ensures removed: !has(r.undefinedTypes, undefKey(r, x.name))
  ensures others: forall k string {has(r.undefinedTypes, k)} :: k != undefKey(r, x.name) ==> (has(r.undefinedTypes, k) <==> old(has(r.undefinedTypes, k)))
  nopanic

func "(*language.Reader).isUndefinedResource" (r, x) -> (b)
  props P11
  requires readerOk(r) && x != nil && wordsOk(x.name)
  ensures known: b <==> has(r.undefinedResources, undefKey(r, x.name))
  nopanic
func "(*language.Reader).addUndefinedResource" (r, x)
  props P11
  requires readerOk(r) && x != nil && wordsOk(x.name)
  modifies r.undefinedResources[*]
  ensures added: has(r.undefinedResources, undefKey(r, x.name))
  ensures others: forall k string {has(r.undefinedResources, k)} :: k != undefKey(r, x.name) ==> (has(r.undefinedResources, k) <==> old(has(r.undefinedResources, k)))
  nopanic
func "(*language.Reader).removeUndefinedResource" (r, x)
  props P11
  requires readerOk(r) && x != nil && wordsOk(x.name)
  modifies r.undefinedResources[*]
  ensures removed: !has(r.undefinedResources, undefKey(r, x.name))
  ensures others: forall k string {has(r.undefinedResources, k)} :: k != undefKey(r, x.name) ==> (has(r.undefinedResources, k) <==> old(has(r.undefinedResources, k)))
  nopanic

func "(*language.Reader).isUndefinedError" (r, x) -> (b)
  props P11
  requires readerOk(r) && x != nil && wordsOk(x.name)
  ensures known: b <==> has(r.undefinedErrors, undefKey(r, x.name))
  nopanic
func "(*language.Reader).addUndefinedError" (r, x)
  props P11
  requires readerOk(r) && x != nil && wordsOk(x.name)
  modifies r.undefinedErrors[*]
  ensures added: has(r.undefinedErrors, undefKey(r, x.name))
  ensures others: forall k string {has(r.undefinedErrors, k)} :: k != undefKey(r, x.name) ==> (has(r.undefinedErrors, k) <==> old(has(r.undefinedErrors, k)))
  nopanic
func "(*language.Reader).removeUndefinedError" (r, x)
  props P11
  requires readerOk(r) && x != nil && wordsOk(x.name)
  modifies r.undefinedErrors[*]
  ensures removed: !has(r.undefinedErrors, undefKey(r, x.name))
  ensures others: forall k string {has(r.undefinedErrors, k)} :: k != undefKey(r, x.name) ==> (has(r.undefinedErrors, k) <==> old(has(r.undefinedErrors, k)))
  nopanic

// The concept with that name is the only one of the version, and it is created, without definition, when there was none.
define resolvedType(r *language.Reader, n *names.Name, x *concepts.Type) bool =
  x != nil && has(r.version.types, nameText(n)) && r.version.types[nameText(n)] == x &&
  (old(has(r.version.types, nameText(n))) ==> x == old(r.version.types[nameText(n)])) &&
  (!old(has(r.version.types, nameText(n))) ==> fresh(x) && x.name == n && x.owner == r.version && has(r.undefinedTypes, undefKey(r, n)))

func "(*language.Reader).ExitPlainTypeReference" (r, ctx)
  props P11
  requires readerOk(r) && ctx != nil && idOk(ctx.name)
  modifies ctx.result, r.version.types[*], r.undefinedTypes[*]
  ensures resolved: resolvedType(r, nameOf(ctx.name), ctx.result)
  ensures others: forall k string {has(r.version.types, k)} :: k != nameText(nameOf(ctx.name)) ==> (has(r.version.types, k) <==> old(has(r.version.types, k)))
  ensures otherConcepts: forall k string {r.version.types[k]} :: k != nameText(nameOf(ctx.name)) ==> r.version.types[k] == old(r.version.types[k])
  ensures undefined: forall k string {has(r.undefinedTypes, k)} :: k != undefKey(r, nameOf(ctx.name)) || old(has(r.version.types, nameText(nameOf(ctx.name)))) ==> (has(r.undefinedTypes, k) <==> old(has(r.undefinedTypes, k)))
  ensures kept: readerOk(r)
  nopanic

// The concept with that name is the only one of the version, and it is created, without definition, when there was none.
define resolvedResource(r *language.Reader, n *names.Name, x *concepts.Resource) bool =
  x != nil && has(r.version.resources, nameText(n)) && r.version.resources[nameText(n)] == x &&
  (old(has(r.version.resources, nameText(n))) ==> x == old(r.version.resources[nameText(n)])) &&
  (!old(has(r.version.resources, nameText(n))) ==> fresh(x) && x.name == n && x.owner == r.version && has(r.undefinedResources, undefKey(r, n)))

func "(*language.Reader).ExitResourceReference" (r, ctx)
  props P11
  requires readerOk(r) && ctx != nil && idOk(ctx.name)
  modifies ctx.result, r.version.resources[*], r.undefinedResources[*]
  ensures resolved: resolvedResource(r, nameOf(ctx.name), ctx.result)
  ensures others: forall k string {has(r.version.resources, k)} :: k != nameText(nameOf(ctx.name)) ==> (has(r.version.resources, k) <==> old(has(r.version.resources, k)))
  ensures otherConcepts: forall k string {r.version.resources[k]} :: k != nameText(nameOf(ctx.name)) ==> r.version.resources[k] == old(r.version.resources[k])
  ensures undefined: forall k string {has(r.undefinedResources, k)} :: k != undefKey(r, nameOf(ctx.name)) || old(has(r.version.resources, nameText(nameOf(ctx.name)))) ==> (has(r.undefinedResources, k) <==> old(has(r.undefinedResources, k)))
  ensures kept: readerOk(r)
  nopanic

// Types of lists and maps: the one with the name of the elements, created when there was none.
define others(r *language.Reader, k string) bool =
  r.version.types[k] == old(r.version.types[k]) && (has(r.version.types, k) <==> old(has(r.version.types, k)))
define collection(r *language.Reader, n *names.Name, kind int, index *concepts.Type, element *concepts.Type, x *concepts.Type) bool =
  x != nil && has(r.version.types, nameText(n)) && r.version.types[nameText(n)] == x &&
  (old(has(r.version.types, nameText(n))) ==> x == old(r.version.types[nameText(n)])) &&
  (!old(has(r.version.types, nameText(n))) && x != element && x != index ==>
    fresh(x) && x.kind == kind && x.name == n && x.owner == r.version && x.element == element && x.index == index)

func "(*language.Reader).ExitListTypeReference" (r, ctx)
  props P11
  requires readerOk(r) && ctx != nil && idOk(ctx.element)
  modifies ctx.result, r.version.types[*], r.undefinedTypes[*]
  ensures element: resolvedType(r, nameOf(ctx.element), r.version.types[nameText(nameOf(ctx.element))])
  ensures list: exists n *names.Name {contents(n.words)} :: contents(n.words) == cat(contents(nameOf(ctx.element).words), contents(nomenclator.List.words)) &&
    collection(r, n, concepts.ListType, nil, r.version.types[nameText(nameOf(ctx.element))], ctx.result) &&
    (forall k string {has(r.version.types, k)} :: k != nameText(nameOf(ctx.element)) && k != nameText(n) ==> others(r, k))
  ensures undefined: forall k string {has(r.undefinedTypes, k)} :: k != undefKey(r, nameOf(ctx.element)) || old(has(r.version.types, nameText(nameOf(ctx.element)))) ==> (has(r.undefinedTypes, k) <==> old(has(r.undefinedTypes, k)))
  ensures kept: readerOk(r)
  nopanic

func "(*language.Reader).ExitMapTypeReference" (r, ctx)
  props P11
  requires readerOk(r) && ctx != nil && idOk(ctx.element) && idOk(ctx.index)
  modifies ctx.result, r.version.types[*], r.undefinedTypes[*]
  ensures element: resolvedType(r, nameOf(ctx.element), r.version.types[nameText(nameOf(ctx.element))]) || nameText(nameOf(ctx.element)) == nameText(nameOf(ctx.index))
  ensures index: resolvedType(r, nameOf(ctx.index), r.version.types[nameText(nameOf(ctx.index))])
  ensures map: exists n *names.Name {contents(n.words)} :: contents(n.words) == cat(cat(contents(nameOf(ctx.index).words), contents(nameOf(ctx.element).words)), contents(nomenclator.Map.words)) &&
    collection(r, n, concepts.MapType, r.version.types[nameText(nameOf(ctx.index))], r.version.types[nameText(nameOf(ctx.element))], ctx.result) &&
    (forall k string {has(r.version.types, k)} :: k != nameText(nameOf(ctx.element)) && k != nameText(nameOf(ctx.index)) && k != nameText(n) ==> others(r, k))
  ensures kept: readerOk(r)
  nopanic
globalfact nomMap: nomenclator.Map != nil && isWord(nomenclator.Map, "map")

func "(*language.Reader).ExitTypeReference" (r, ctx)
  props P11
  requires r != nil && ctx != nil
  requires ctx.plain != nil ==> dyn(ctx.plain, *language.PlainTypeReferenceContext) != nil && typeis(ctx.plain, *language.PlainTypeReferenceContext)
  requires ctx.list != nil ==> dyn(ctx.list, *language.ListTypeReferenceContext) != nil && typeis(ctx.list, *language.ListTypeReferenceContext)
  requires ctx.mp != nil ==> dyn(ctx.mp, *language.MapTypeReferenceContext) != nil && typeis(ctx.mp, *language.MapTypeReferenceContext)
  modifies ctx.result
  ensures plain: ctx.plain != nil && ctx.list == nil && ctx.mp == nil ==> ctx.result == dyn(ctx.plain, *language.PlainTypeReferenceContext).result
  ensures list: ctx.list != nil && ctx.mp == nil && ctx.plain == nil ==> ctx.result == dyn(ctx.list, *language.ListTypeReferenceContext).result
  ensures map: ctx.mp != nil && ctx.list == nil && ctx.plain == nil ==> ctx.result == dyn(ctx.mp, *language.MapTypeReferenceContext).result
  nopanic
