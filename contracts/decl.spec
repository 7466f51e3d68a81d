// Contracts of the declarations (P11, P12).

fun startOf(c *antlr.BaseParserRuleContext) antlr.Token
axiom started: forall c *antlr.BaseParserRuleContext {startOf(c)} :: startOf(c) != nil
extern func "(*antlr.BaseParserRuleContext).GetStart" (c) -> (r) is startOf(c)

// Annotations of the contexts of the nodes, in order.
define annCtx(x language.IAnnotationContext) *language.AnnotationContext = dyn(x, *language.AnnotationContext)
rec annsOf(a seq language.IAnnotationContext, n int) list = n <= 0 ? empty : snoc(annsOf(a, n - 1), annCtx(a[n - 1]).result)
define annCtxsOk(a []language.IAnnotationContext) bool =
  forall i in 0..len(a) {a[i]} :: a[i] != nil && typeis(a[i], *language.AnnotationContext) && annCtx(a[i]) != nil

// What happens with the documentation of a declaration that starts in a token.
define docSet(r *language.Reader, t antlr.Token, before string, after string) bool =
  (old(docCount(language.comments, lineOf(t))) == 0 ==> after == before) &&
  (r.reporter.errors == old(r.reporter.errors) && old(docCount(language.comments, lineOf(t))) > 0 ==>
    (exists p string {old(docOf(language.comments, lineOf(t), p))} :: old(docFits(language.comments, lineOf(t), p)) &&
      after == (strJoin(old(docOf(language.comments, lineOf(t), p)), "\n") == "" ? before : strJoin(old(docOf(language.comments, lineOf(t), p)), "\n"))))

// Nothing else is done when a declaration is rejected.
define sameMaps(r *language.Reader) bool =
  (forall k string {r.version.types[k]} :: r.version.types[k] == old(r.version.types[k]) && (has(r.version.types, k) <==> old(has(r.version.types, k)))) &&
  (forall k string {has(r.undefinedTypes, k)} :: has(r.undefinedTypes, k) <==> old(has(r.undefinedTypes, k))) &&
  (forall k string {r.version.resources[k]} :: r.version.resources[k] == old(r.version.resources[k]) && (has(r.version.resources, k) <==> old(has(r.version.resources, k)))) &&
  (forall k string {has(r.undefinedResources, k)} :: has(r.undefinedResources, k) <==> old(has(r.undefinedResources, k))) &&
  (forall k string {r.version.errors[k]} :: r.version.errors[k] == old(r.version.errors[k]) && (has(r.version.errors, k) <==> old(has(r.version.errors, k)))) &&
  (forall k string {has(r.undefinedErrors, k)} :: has(r.undefinedErrors, k) <==> old(has(r.undefinedErrors, k)))
define rejected(r *language.Reader) bool =
  r.reporter.errors == old(r.reporter.errors) + 1 && sameMaps(r) &&
  (forall k int {has(language.comments, k)} :: has(language.comments, k) <==> old(has(language.comments, k)))

// A type with that name is already defined: it isn't only used.
define isDefinedType(r *language.Reader, n *names.Name) bool = old(has(r.version.types, nameText(n)) && !has(r.undefinedTypes, undefKey(r, n)))
define declaredType(r *language.Reader, n *names.Name) *concepts.Type = r.version.types[nameText(n)]
define wasType(r *language.Reader, n *names.Name) bool = old(has(r.version.types, nameText(n)))
define docBeforeType(r *language.Reader, n *names.Name) string = wasType(r, n) ? old(r.version.types[nameText(n)].doc) : ""
define annsBeforeType(r *language.Reader, n *names.Name) list = wasType(r, n) ? old(contents(r.version.types[nameText(n)].annotations)) : empty
define declarationType(r *language.Reader, n *names.Name) bool =
  let x = r.version.types[nameText(n)] ::
  x != nil && has(r.version.types, nameText(n)) &&
  (wasType(r, n) ==> x == old(r.version.types[nameText(n)]) && x.name == old(r.version.types[nameText(n)].name) && x.owner == old(r.version.types[nameText(n)].owner) && !has(r.undefinedTypes, undefKey(r, n))) &&
  (!wasType(r, n) ==> fresh(x) && x.name == n && x.owner == r.version) &&
  (forall k string {r.version.types[k]} :: k != nameText(n) ==> r.version.types[k] == old(r.version.types[k]) && (has(r.version.types, k) <==> old(has(r.version.types, k)))) &&
  (forall k string {has(r.undefinedTypes, k)} :: k != undefKey(r, n) ==> (has(r.undefinedTypes, k) <==> old(has(r.undefinedTypes, k))))

// A resource with that name is already defined: it isn't only used.
define isDefinedResource(r *language.Reader, n *names.Name) bool = old(has(r.version.resources, nameText(n)) && !has(r.undefinedResources, undefKey(r, n)))
define declaredResource(r *language.Reader, n *names.Name) *concepts.Resource = r.version.resources[nameText(n)]
define wasResource(r *language.Reader, n *names.Name) bool = old(has(r.version.resources, nameText(n)))
define docBeforeResource(r *language.Reader, n *names.Name) string = wasResource(r, n) ? old(r.version.resources[nameText(n)].doc) : ""
define annsBeforeResource(r *language.Reader, n *names.Name) list = wasResource(r, n) ? old(contents(r.version.resources[nameText(n)].annotations)) : empty
define declarationResource(r *language.Reader, n *names.Name) bool =
  let x = r.version.resources[nameText(n)] ::
  x != nil && has(r.version.resources, nameText(n)) &&
  (wasResource(r, n) ==> x == old(r.version.resources[nameText(n)]) && x.name == old(r.version.resources[nameText(n)].name) && x.owner == old(r.version.resources[nameText(n)].owner) && !has(r.undefinedResources, undefKey(r, n))) &&
  (!wasResource(r, n) ==> fresh(x) && x.name == n && x.owner == r.version) &&
  (forall k string {r.version.resources[k]} :: k != nameText(n) ==> r.version.resources[k] == old(r.version.resources[k]) && (has(r.version.resources, k) <==> old(has(r.version.resources, k)))) &&
  (forall k string {has(r.undefinedResources, k)} :: k != undefKey(r, n) ==> (has(r.undefinedResources, k) <==> old(has(r.undefinedResources, k))))

// A error with that name is already defined: it isn't only used.
define isDefinedError(r *language.Reader, n *names.Name) bool = old(has(r.version.errors, nameText(n)) && !has(r.undefinedErrors, undefKey(r, n)))
define declaredError(r *language.Reader, n *names.Name) *concepts.Error = r.version.errors[nameText(n)]
define wasError(r *language.Reader, n *names.Name) bool = old(has(r.version.errors, nameText(n)))
define docBeforeError(r *language.Reader, n *names.Name) string = wasError(r, n) ? old(r.version.errors[nameText(n)].doc) : ""
define annsBeforeError(r *language.Reader, n *names.Name) list = wasError(r, n) ? old(contents(r.version.errors[nameText(n)].annotations)) : empty
define declarationError(r *language.Reader, n *names.Name) bool =
  let x = r.version.errors[nameText(n)] ::
  x != nil && has(r.version.errors, nameText(n)) &&
  (wasError(r, n) ==> x == old(r.version.errors[nameText(n)]) && x.name == old(r.version.errors[nameText(n)].name) && x.owner == old(r.version.errors[nameText(n)].owner) && !has(r.undefinedErrors, undefKey(r, n))) &&
  (!wasError(r, n) ==> fresh(x) && x.name == n && x.owner == r.version) &&
  (forall k string {r.version.errors[k]} :: k != nameText(n) ==> r.version.errors[k] == old(r.version.errors[k]) && (has(r.version.errors, k) <==> old(has(r.version.errors, k)))) &&
  (forall k string {has(r.undefinedErrors, k)} :: k != undefKey(r, n) ==> (has(r.undefinedErrors, k) <==> old(has(r.undefinedErrors, k))))

define enumMember(x language.IEnumMemberDeclContext) *concepts.EnumValue = dyn(x, *language.EnumMemberDeclContext).result
define structMember(x language.IStructMemberDeclContext) *concepts.Attribute = dyn(x, *language.StructMemberDeclContext).result

func "(*language.Reader).ExitEnumDecl" (r, ctx)
  props P11, P12
  requires readerOk(r) && ctx != nil && idOk(ctx.name) && language.comments != nil && annCtxsOk(ctx.annotations)
  requires forall k string {r.version.types[k]} :: has(r.version.types, k) ==> nameText(r.version.types[k].name) == k
  requires forall k string {r.version.types[k]} :: has(r.version.types, k) ==> okTypeValues(r.version.types[k])
  requires forall i in 0..len(ctx.members) {ctx.members[i]} :: ctx.members[i] != nil && typeis(ctx.members[i], *language.EnumMemberDeclContext) && dyn(ctx.members[i], *language.EnumMemberDeclContext) != nil && enumMember(ctx.members[i]) != nil && wordsOk(enumMember(ctx.members[i]).name)
  modifies everything
  ensures [P11] defined: isDefinedType(r, old(nameOf(ctx.name))) ==> rejected(r)
  ensures [P11] declared: !isDefinedType(r, old(nameOf(ctx.name))) ==> declarationType(r, old(nameOf(ctx.name)))
  ensures [P12] doc: !isDefinedType(r, old(nameOf(ctx.name))) ==> docSet(r, old(startOf(ctx.BaseParserRuleContext)), docBeforeType(r, old(nameOf(ctx.name))), declaredType(r, old(nameOf(ctx.name))).doc)
  ensures [P12] annotations: !isDefinedType(r, old(nameOf(ctx.name))) ==> contents(declaredType(r, old(nameOf(ctx.name))).annotations) == cat(annsBeforeType(r, old(nameOf(ctx.name))), old(annsOf(elems(ctx.annotations), len(ctx.annotations))))
  ensures [P12] kind: !isDefinedType(r, old(nameOf(ctx.name))) ==> declaredType(r, old(nameOf(ctx.name))).kind == concepts.EnumType
  ensures [P12] values: !isDefinedType(r, old(nameOf(ctx.name))) ==> len(declaredType(r, old(nameOf(ctx.name))).values) == (wasType(r, old(nameOf(ctx.name))) ? old(len(r.version.types[nameText(nameOf(ctx.name))].values)) : 0) + old(len(ctx.members)) && (forall j in 0..old(len(ctx.members)) {old(ctx.members[j])} :: (exists k in 0..len(declaredType(r, old(nameOf(ctx.name))).values) :: declaredType(r, old(nameOf(ctx.name))).values[k] == old(enumMember(ctx.members[j]))) && old(enumMember(ctx.members[j])).typ == declaredType(r, old(nameOf(ctx.name))))
  inv [AddAnnotation] (i: idx): contents(declaredType(r, old(nameOf(ctx.name))).annotations) == cat(annsBeforeType(r, old(nameOf(ctx.name))), old(annsOf(elems(ctx.annotations), i)))
  inv [AddValue] okTypeValues(declaredType(r, old(nameOf(ctx.name))))
  inv [AddValue] (i: idx): len(declaredType(r, old(nameOf(ctx.name))).values) == (wasType(r, old(nameOf(ctx.name))) ? old(len(r.version.types[nameText(nameOf(ctx.name))].values)) : 0) + i
  inv [AddValue] (i: idx): forall j in 0..i {old(ctx.members[j])} :: (exists k in 0..len(declaredType(r, old(nameOf(ctx.name))).values) :: declaredType(r, old(nameOf(ctx.name))).values[k] == old(enumMember(ctx.members[j]))) && old(enumMember(ctx.members[j])).typ == declaredType(r, old(nameOf(ctx.name)))
  nopanic

func "(*language.Reader).ExitStructDecl" (r, ctx)
  props P11, P12
  requires readerOk(r) && ctx != nil && idOk(ctx.name) && language.comments != nil && annCtxsOk(ctx.annotations)
  requires forall k string {r.version.types[k]} :: has(r.version.types, k) ==> nameText(r.version.types[k].name) == k
  requires forall k string {r.version.types[k]} :: has(r.version.types, k) ==> okTypeAttributes(r.version.types[k])
  requires forall i in 0..len(ctx.members) {ctx.members[i]} :: ctx.members[i] != nil && typeis(ctx.members[i], *language.StructMemberDeclContext) && dyn(ctx.members[i], *language.StructMemberDeclContext) != nil && structMember(ctx.members[i]) != nil && wordsOk(structMember(ctx.members[i]).name)
  modifies everything
  ensures [P11] defined: isDefinedType(r, old(nameOf(ctx.name))) ==> rejected(r)
  ensures [P11] declared: !isDefinedType(r, old(nameOf(ctx.name))) ==> declarationType(r, old(nameOf(ctx.name)))
  ensures [P12] doc: !isDefinedType(r, old(nameOf(ctx.name))) ==> docSet(r, old(startOf(ctx.BaseParserRuleContext)), docBeforeType(r, old(nameOf(ctx.name))), declaredType(r, old(nameOf(ctx.name))).doc)
  ensures [P12] annotations: !isDefinedType(r, old(nameOf(ctx.name))) ==> contents(declaredType(r, old(nameOf(ctx.name))).annotations) == cat(annsBeforeType(r, old(nameOf(ctx.name))), old(annsOf(elems(ctx.annotations), len(ctx.annotations))))
  ensures [P12] kind: !isDefinedType(r, old(nameOf(ctx.name))) ==> declaredType(r, old(nameOf(ctx.name))).kind == concepts.StructType
  ensures [P12] attributes: !isDefinedType(r, old(nameOf(ctx.name))) ==> len(declaredType(r, old(nameOf(ctx.name))).attributes) == (wasType(r, old(nameOf(ctx.name))) ? old(len(r.version.types[nameText(nameOf(ctx.name))].attributes)) : 0) + old(len(ctx.members)) && (forall j in 0..old(len(ctx.members)) {old(ctx.members[j])} :: (exists k in 0..len(declaredType(r, old(nameOf(ctx.name))).attributes) :: declaredType(r, old(nameOf(ctx.name))).attributes[k] == old(structMember(ctx.members[j]))) && old(structMember(ctx.members[j])).owner == declaredType(r, old(nameOf(ctx.name))))
  inv [AddAnnotation] (i: idx): contents(declaredType(r, old(nameOf(ctx.name))).annotations) == cat(annsBeforeType(r, old(nameOf(ctx.name))), old(annsOf(elems(ctx.annotations), i)))
  inv [AddAttribute] okTypeAttributes(declaredType(r, old(nameOf(ctx.name))))
  inv [AddAttribute] (i: idx): len(declaredType(r, old(nameOf(ctx.name))).attributes) == (wasType(r, old(nameOf(ctx.name))) ? old(len(r.version.types[nameText(nameOf(ctx.name))].attributes)) : 0) + i
  inv [AddAttribute] (i: idx): forall j in 0..i {old(ctx.members[j])} :: (exists k in 0..len(declaredType(r, old(nameOf(ctx.name))).attributes) :: declaredType(r, old(nameOf(ctx.name))).attributes[k] == old(structMember(ctx.members[j]))) && old(structMember(ctx.members[j])).owner == declaredType(r, old(nameOf(ctx.name)))
  nopanic

// The declaration doesn't have an annotation that takes the definition from another service.
define noReference(r *language.Reader, ctx *language.ClassDeclContext) bool =
  old((forall i in 0..len(ctx.annotations) {ctx.annotations[i]} :: annCtx(ctx.annotations[i]).result != nil && annCtx(ctx.annotations[i]).result.name != "ref")) &&
  old((forall k string {r.version.types[k]} :: has(r.version.types, k) ==> noRef(r.version.types[k])))
lemma firstAnnNone(a seq *concepts.Annotation, n int, name string) induct n {firstAnn(a, n, name)} :
  (forall i in 0..n {a[i]} :: a[i] != nil && a[i].name != name) ==> firstAnn(a, n, name) == nil
define noRef(x *concepts.Type) bool = forall i in 0..len(x.annotations) {x.annotations[i]} :: x.annotations[i] != nil && x.annotations[i].name != "ref"
// What is done with classes taken from other services is checked by the harness.
extern func "(*language.Reader).removeLinkedAttributes" (r, x)
  modifies everything
extern func "(*language.Reader).handleClassRef" (r, x, path)
  modifies everything

func "(*language.Reader).ExitClassDecl" (r, ctx)
  props P11, P12
  requires readerOk(r) && ctx != nil && idOk(ctx.name) && language.comments != nil && annCtxsOk(ctx.annotations)
  requires forall k string {r.version.types[k]} :: has(r.version.types, k) ==> nameText(r.version.types[k].name) == k
  requires forall k string {r.version.types[k]} :: has(r.version.types, k) ==> okTypeAttributes(r.version.types[k])
  requires forall i in 0..len(ctx.members) {ctx.members[i]} :: ctx.members[i] != nil && typeis(ctx.members[i], *language.StructMemberDeclContext) && dyn(ctx.members[i], *language.StructMemberDeclContext) != nil && structMember(ctx.members[i]) != nil && wordsOk(structMember(ctx.members[i]).name)
  requires forall k string {r.version.types[k]} :: has(r.version.types, k) ==> annsOk(r.version.types[k])
  requires forall i in 0..len(ctx.annotations) {ctx.annotations[i]} :: annCtx(ctx.annotations[i]).result != nil
  modifies everything
  ensures [P11] defined: isDefinedType(r, old(nameOf(ctx.name))) ==> rejected(r)
  ensures [P11] declared: !isDefinedType(r, old(nameOf(ctx.name))) && noReference(r, ctx) ==> declarationType(r, old(nameOf(ctx.name)))
  ensures [P12] doc: !isDefinedType(r, old(nameOf(ctx.name))) && noReference(r, ctx) ==> docSet(r, old(startOf(ctx.BaseParserRuleContext)), docBeforeType(r, old(nameOf(ctx.name))), declaredType(r, old(nameOf(ctx.name))).doc)
  ensures [P12] annotations: !isDefinedType(r, old(nameOf(ctx.name))) && noReference(r, ctx) ==> contents(declaredType(r, old(nameOf(ctx.name))).annotations) == cat(annsBeforeType(r, old(nameOf(ctx.name))), old(annsOf(elems(ctx.annotations), len(ctx.annotations))))
  ensures [P12] kind: !isDefinedType(r, old(nameOf(ctx.name))) && noReference(r, ctx) ==> declaredType(r, old(nameOf(ctx.name))).kind == concepts.ClassType
  ensures [P12] attributes: !isDefinedType(r, old(nameOf(ctx.name))) && noReference(r, ctx) ==> len(declaredType(r, old(nameOf(ctx.name))).attributes) == (wasType(r, old(nameOf(ctx.name))) ? old(len(r.version.types[nameText(nameOf(ctx.name))].attributes)) : 0) + old(len(ctx.members)) && (forall j in 0..old(len(ctx.members)) {old(ctx.members[j])} :: (exists k in 0..len(declaredType(r, old(nameOf(ctx.name))).attributes) :: declaredType(r, old(nameOf(ctx.name))).attributes[k] == old(structMember(ctx.members[j]))) && old(structMember(ctx.members[j])).owner == declaredType(r, old(nameOf(ctx.name))))
  inv [AddAnnotation] (i: idx): contents(declaredType(r, old(nameOf(ctx.name))).annotations) == cat(annsBeforeType(r, old(nameOf(ctx.name))), old(annsOf(elems(ctx.annotations), i)))
  inv [AddAttribute] okTypeAttributes(declaredType(r, old(nameOf(ctx.name))))
  inv [AddAttribute] (i: idx): len(declaredType(r, old(nameOf(ctx.name))).attributes) == (wasType(r, old(nameOf(ctx.name))) ? old(len(r.version.types[nameText(nameOf(ctx.name))].attributes)) : 0) + i
  inv [AddAttribute] (i: idx): forall j in 0..i {old(ctx.members[j])} :: (exists k in 0..len(declaredType(r, old(nameOf(ctx.name))).attributes) :: declaredType(r, old(nameOf(ctx.name))).attributes[k] == old(structMember(ctx.members[j]))) && old(structMember(ctx.members[j])).owner == declaredType(r, old(nameOf(ctx.name)))
  inv [AddAnnotation] annsOk(declaredType(r, old(nameOf(ctx.name))))
  inv [AddAnnotation] noReference(r, ctx) ==> noRef(declaredType(r, old(nameOf(ctx.name))))

define resourceMember(x language.IResourceMemberDeclContext) any = dyn(x, *language.ResourceMemberDeclContext).result
rec methodsOf(a seq language.IResourceMemberDeclContext, n int) int = n <= 0 ? 0 : methodsOf(a, n - 1) + (typeis(resourceMember(a[n - 1]), *concepts.Method) ? 1 : 0)
rec locatorsOf(a seq language.IResourceMemberDeclContext, n int) int = n <= 0 ? 0 : locatorsOf(a, n - 1) + (typeis(resourceMember(a[n - 1]), *concepts.Locator) ? 1 : 0)

func "(*language.Reader).ExitResourceDecl" (r, ctx)
  props P11, P12
  requires readerOk(r) && ctx != nil && idOk(ctx.name) && language.comments != nil && annCtxsOk(ctx.annotations)
  requires forall k string {r.version.resources[k]} :: has(r.version.resources, k) ==> nameText(r.version.resources[k].name) == k
  requires forall k string {r.version.resources[k]} :: has(r.version.resources, k) ==> okResourceMethods(r.version.resources[k]) && okResourceLocators(r.version.resources[k])
  requires forall i in 0..len(ctx.members) {ctx.members[i]} :: ctx.members[i] != nil && typeis(ctx.members[i], *language.ResourceMemberDeclContext) && dyn(ctx.members[i], *language.ResourceMemberDeclContext) != nil &&
    (typeis(resourceMember(ctx.members[i]), *concepts.Method) ==> dyn(resourceMember(ctx.members[i]), *concepts.Method) != nil && wordsOk(dyn(resourceMember(ctx.members[i]), *concepts.Method).name)) &&
    (typeis(resourceMember(ctx.members[i]), *concepts.Locator) ==> dyn(resourceMember(ctx.members[i]), *concepts.Locator) != nil && wordsOk(dyn(resourceMember(ctx.members[i]), *concepts.Locator).name))
  modifies everything
  ensures [P11] defined: isDefinedResource(r, old(nameOf(ctx.name))) ==> rejected(r)
  ensures [P11] declared: !isDefinedResource(r, old(nameOf(ctx.name))) ==> declarationResource(r, old(nameOf(ctx.name)))
  ensures [P12] doc: !isDefinedResource(r, old(nameOf(ctx.name))) ==> docSet(r, old(startOf(ctx.BaseParserRuleContext)), docBeforeResource(r, old(nameOf(ctx.name))), declaredResource(r, old(nameOf(ctx.name))).doc)
  ensures [P12] annotations: !isDefinedResource(r, old(nameOf(ctx.name))) ==> contents(declaredResource(r, old(nameOf(ctx.name))).annotations) == cat(annsBeforeResource(r, old(nameOf(ctx.name))), old(annsOf(elems(ctx.annotations), len(ctx.annotations))))
  ensures [P12] methods: !isDefinedResource(r, old(nameOf(ctx.name))) ==> len(declaredResource(r, old(nameOf(ctx.name))).methods) == (wasResource(r, old(nameOf(ctx.name))) ? old(len(r.version.resources[nameText(nameOf(ctx.name))].methods)) : 0) + old(methodsOf(elems(ctx.members), len(ctx.members))) && (forall j in 0..old(len(ctx.members)) {old(ctx.members[j])} :: old(typeis(resourceMember(ctx.members[j]), *concepts.Method)) ==> (exists k in 0..len(declaredResource(r, old(nameOf(ctx.name))).methods) :: declaredResource(r, old(nameOf(ctx.name))).methods[k] == old(dyn(resourceMember(ctx.members[j]), *concepts.Method))) && old(dyn(resourceMember(ctx.members[j]), *concepts.Method)).owner == declaredResource(r, old(nameOf(ctx.name))))
  ensures [P12] locators: !isDefinedResource(r, old(nameOf(ctx.name))) ==> len(declaredResource(r, old(nameOf(ctx.name))).locators) == (wasResource(r, old(nameOf(ctx.name))) ? old(len(r.version.resources[nameText(nameOf(ctx.name))].locators)) : 0) + old(locatorsOf(elems(ctx.members), len(ctx.members))) && (forall j in 0..old(len(ctx.members)) {old(ctx.members[j])} :: old(typeis(resourceMember(ctx.members[j]), *concepts.Locator)) ==> (exists k in 0..len(declaredResource(r, old(nameOf(ctx.name))).locators) :: declaredResource(r, old(nameOf(ctx.name))).locators[k] == old(dyn(resourceMember(ctx.members[j]), *concepts.Locator))) && old(dyn(resourceMember(ctx.members[j]), *concepts.Locator)).owner == declaredResource(r, old(nameOf(ctx.name))))
  inv [AddAnnotation] (i: idx): contents(declaredResource(r, old(nameOf(ctx.name))).annotations) == cat(annsBeforeResource(r, old(nameOf(ctx.name))), old(annsOf(elems(ctx.annotations), i)))
  inv [AddMethod] okResourceMethods(declaredResource(r, old(nameOf(ctx.name))))
  inv [AddMethod] (i: idx): len(declaredResource(r, old(nameOf(ctx.name))).methods) == (wasResource(r, old(nameOf(ctx.name))) ? old(len(r.version.resources[nameText(nameOf(ctx.name))].methods)) : 0) + old(methodsOf(elems(ctx.members), i))
  inv [AddMethod] (i: idx): forall j in 0..i {old(ctx.members[j])} :: old(typeis(resourceMember(ctx.members[j]), *concepts.Method)) ==> (exists k in 0..len(declaredResource(r, old(nameOf(ctx.name))).methods) :: declaredResource(r, old(nameOf(ctx.name))).methods[k] == old(dyn(resourceMember(ctx.members[j]), *concepts.Method))) && old(dyn(resourceMember(ctx.members[j]), *concepts.Method)).owner == declaredResource(r, old(nameOf(ctx.name)))
  inv [AddLocator] okResourceLocators(declaredResource(r, old(nameOf(ctx.name))))
  inv [AddLocator] (i: idx): len(declaredResource(r, old(nameOf(ctx.name))).locators) == (wasResource(r, old(nameOf(ctx.name))) ? old(len(r.version.resources[nameText(nameOf(ctx.name))].locators)) : 0) + old(locatorsOf(elems(ctx.members), i))
  inv [AddLocator] (i: idx): forall j in 0..i {old(ctx.members[j])} :: old(typeis(resourceMember(ctx.members[j]), *concepts.Locator)) ==> (exists k in 0..len(declaredResource(r, old(nameOf(ctx.name))).locators) :: declaredResource(r, old(nameOf(ctx.name))).locators[k] == old(dyn(resourceMember(ctx.members[j]), *concepts.Locator))) && old(dyn(resourceMember(ctx.members[j]), *concepts.Locator)).owner == declaredResource(r, old(nameOf(ctx.name)))
  nopanic

define errorMember(x language.IErrorMemberDeclContext) any = dyn(x, *language.ErrorMemberDeclContext).result
rec codeOf(a seq language.IErrorMemberDeclContext, n int, before int) int = n <= 0 ? before : (typeis(errorMember(a[n - 1]), int) ? dyn(errorMember(a[n - 1]), int) : codeOf(a, n - 1, before))

func "(*language.Reader).ExitErrorDecl" (r, ctx)
  props P11, P12
  requires readerOk(r) && ctx != nil && idOk(ctx.name) && language.comments != nil && annCtxsOk(ctx.annotations)
  requires forall k string {r.version.errors[k]} :: has(r.version.errors, k) ==> nameText(r.version.errors[k].name) == k
  requires forall i in 0..len(ctx.members) {ctx.members[i]} :: ctx.members[i] != nil && typeis(ctx.members[i], *language.ErrorMemberDeclContext) && dyn(ctx.members[i], *language.ErrorMemberDeclContext) != nil
  modifies everything
  ensures [P11] defined: isDefinedError(r, old(nameOf(ctx.name))) ==> rejected(r)
  ensures [P11] declared: !isDefinedError(r, old(nameOf(ctx.name))) ==> declarationError(r, old(nameOf(ctx.name)))
  ensures [P12] doc: !isDefinedError(r, old(nameOf(ctx.name))) ==> docSet(r, old(startOf(ctx.BaseParserRuleContext)), docBeforeError(r, old(nameOf(ctx.name))), declaredError(r, old(nameOf(ctx.name))).doc)
  ensures [P12] annotations: !isDefinedError(r, old(nameOf(ctx.name))) ==> contents(declaredError(r, old(nameOf(ctx.name))).annotations) == cat(annsBeforeError(r, old(nameOf(ctx.name))), old(annsOf(elems(ctx.annotations), len(ctx.annotations))))
  ensures [P12] code: !isDefinedError(r, old(nameOf(ctx.name))) ==> declaredError(r, old(nameOf(ctx.name))).code == old(codeOf(elems(ctx.members), len(ctx.members), has(r.version.errors, nameText(nameOf(ctx.name))) ? r.version.errors[nameText(nameOf(ctx.name))].code : 0))
  inv [AddAnnotation] (i: idx): contents(declaredError(r, old(nameOf(ctx.name))).annotations) == cat(annsBeforeError(r, old(nameOf(ctx.name))), old(annsOf(elems(ctx.annotations), i)))
  inv [SetCode] (i: idx): declaredError(r, old(nameOf(ctx.name))).code == old(codeOf(elems(ctx.members), i, has(r.version.errors, nameText(nameOf(ctx.name))) ? r.version.errors[nameText(nameOf(ctx.name))].code : 0))
  nopanic
