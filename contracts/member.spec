// Contracts of the declarations of members (P11, P12).

func "(*language.Reader).ExitEnumMemberDecl" (r, ctx)
  props P11, P12
  requires r != nil && r.reporter != nil && ctx != nil && idOk(ctx.name) && language.comments != nil && annCtxsOk(ctx.annotations)
  modifies everything
  ensures [P12] made: ctx == old(ctx) && ctx.result != nil && fresh(ctx.result) && ctx.result.name == old(nameOf(ctx.name))
  ensures [P12] doc: docSet(r, old(startOf(ctx.BaseParserRuleContext)), "", ctx.result.doc)
  ensures [P12] annotations: contents(ctx.result.annotations) == old(annsOf(elems(ctx.annotations), len(ctx.annotations)))
  inv [AddAnnotation] (i: idx, o: concepts.Annotated): contents(dyn(o, *concepts.EnumValue).annotations) == old(annsOf(elems(ctx.annotations), i))
  nopanic

func "(*language.Reader).ExitStructMemberDecl" (r, ctx)
  props P11, P12
  requires r != nil && r.reporter != nil && ctx != nil && idOk(ctx.name) && language.comments != nil && annCtxsOk(ctx.annotations)
  requires ctx.reference != nil && typeis(ctx.reference, *language.TypeReferenceContext) && dyn(ctx.reference, *language.TypeReferenceContext) != nil
  requires ctx.kind != nil ==> typeis(ctx.kind, *language.AttributeKindContext) && dyn(ctx.kind, *language.AttributeKindContext) != nil
  modifies everything
  ensures [P12] made: ctx == old(ctx) && ctx.result != nil && fresh(ctx.result) && ctx.result.name == old(nameOf(ctx.name))
  ensures [P12] doc: docSet(r, old(startOf(ctx.BaseParserRuleContext)), "", ctx.result.doc)
  ensures [P12] annotations: contents(ctx.result.annotations) == old(annsOf(elems(ctx.annotations), len(ctx.annotations)))
  ensures [P11] type: ctx.result.typ == old(dyn(ctx.reference, *language.TypeReferenceContext).result)
  ensures [P12] link: ctx.result.link == (old(ctx.kind) != nil && old(dyn(ctx.kind, *language.AttributeKindContext).result) == language.ModelLexerLINK)
  inv [AddAnnotation] (i: idx, o: concepts.Annotated): contents(dyn(o, *concepts.Attribute).annotations) == old(annsOf(elems(ctx.annotations), i))
  nopanic

define dirCtx(x language.IParameterDirectionContext) *language.ParameterDirectionContext = dyn(x, *language.ParameterDirectionContext)

func "(*language.Reader).ExitMethodParameterDecl" (r, ctx)
  props P11, P12
  requires r != nil && r.reporter != nil && ctx != nil && idOk(ctx.name) && language.comments != nil && annCtxsOk(ctx.annotations)
  requires ctx.reference != nil && typeis(ctx.reference, *language.TypeReferenceContext) && dyn(ctx.reference, *language.TypeReferenceContext) != nil
  requires forall i in 0..len(ctx.directions) {ctx.directions[i]} :: ctx.directions[i] != nil && typeis(ctx.directions[i], *language.ParameterDirectionContext) && dyn(ctx.directions[i], *language.ParameterDirectionContext) != nil
  requires ctx.dflt != nil ==> typeis(ctx.dflt, *language.LiteralContext) && dyn(ctx.dflt, *language.LiteralContext) != nil
  modifies everything
  ensures [P12] made: ctx == old(ctx) && ctx.result != nil && fresh(ctx.result) && ctx.result.name == old(nameOf(ctx.name))
  ensures [P12] doc: docSet(r, old(startOf(ctx.BaseParserRuleContext)), "", ctx.result.doc)
  ensures [P12] annotations: contents(ctx.result.annotations) == old(annsOf(elems(ctx.annotations), len(ctx.annotations)))
  ensures [P11] type: ctx.result.typ == old(dyn(ctx.reference, *language.TypeReferenceContext).result)
  ensures [P12] default: ctx.result.dflt == (old(ctx.dflt) != nil ? old(dyn(ctx.dflt, *language.LiteralContext).result) : nil)
  ensures [P12] input: ctx.result.in <==> (exists i in 0..old(len(ctx.directions)) {old(ctx.directions[i])} :: old(dirCtx(ctx.directions[i]).in) != nil)
  ensures [P12] output: ctx.result.out <==> old(len(ctx.directions)) == 0 || (exists i in 0..old(len(ctx.directions)) {old(ctx.directions[i])} :: old(dirCtx(ctx.directions[i]).out) != nil)
  inv [AddAnnotation] (i: idx, o: concepts.Annotated): contents(dyn(o, *concepts.Parameter).annotations) == old(annsOf(elems(ctx.annotations), i))
  inv [SetIn] (n: idx, x: *concepts.Parameter): x.in <==> (exists i in 0..n {old(ctx.directions[i])} :: old(dirCtx(ctx.directions[i]).in) != nil)
  inv [SetOut] (n: idx, x: *concepts.Parameter): x.out <==> (exists i in 0..n {old(ctx.directions[i])} :: old(dirCtx(ctx.directions[i]).out) != nil)
  nopanic

define methodMember(x language.IMethodMemberDeclContext) any = dyn(x, *language.MethodMemberDeclContext).result
define methodParam(x language.IMethodMemberDeclContext) *concepts.Parameter = dyn(methodMember(x), *concepts.Parameter)
rec paramsOf(a seq language.IMethodMemberDeclContext, n int) int = n <= 0 ? 0 : paramsOf(a, n - 1) + (typeis(methodMember(a[n - 1]), *concepts.Parameter) ? 1 : 0)

func "(*language.Reader).ExitMethodDecl" (r, ctx)
  props P11, P12
  requires r != nil && r.reporter != nil && ctx != nil && idOk(ctx.name) && language.comments != nil && annCtxsOk(ctx.annotations)
  requires forall i in 0..len(ctx.members) {ctx.members[i]} :: ctx.members[i] != nil && typeis(ctx.members[i], *language.MethodMemberDeclContext) && dyn(ctx.members[i], *language.MethodMemberDeclContext) != nil &&
    (typeis(methodMember(ctx.members[i]), *concepts.Parameter) ==> methodParam(ctx.members[i]) != nil && wordsOk(methodParam(ctx.members[i]).name))
  modifies everything
  ensures [P12] made: ctx == old(ctx) && ctx.result != nil && fresh(ctx.result) && ctx.result.name == old(nameOf(ctx.name))
  ensures [P12] doc: docSet(r, old(startOf(ctx.BaseParserRuleContext)), "", ctx.result.doc)
  ensures [P12] annotations: contents(ctx.result.annotations) == old(annsOf(elems(ctx.annotations), len(ctx.annotations)))
  ensures [P12] parameters: len(ctx.result.parameters) == old(paramsOf(elems(ctx.members), len(ctx.members))) && (forall j in 0..old(len(ctx.members)) {old(ctx.members[j])} :: old(typeis(methodMember(ctx.members[j]), *concepts.Parameter)) ==> (exists k in 0..len(ctx.result.parameters) :: ctx.result.parameters[k] == old(methodParam(ctx.members[j]))) && old(methodParam(ctx.members[j])).owner == ctx.result)
  inv [AddAnnotation] (i: idx, o: concepts.Annotated): contents(dyn(o, *concepts.Method).annotations) == old(annsOf(elems(ctx.annotations), i))
  inv [AddParameter] (x: *concepts.Method): okMethodParameters(x)
  inv [AddParameter] (i: idx, x: *concepts.Method): len(x.parameters) == old(paramsOf(elems(ctx.members), i))
  inv [AddParameter] (i: idx, x: *concepts.Method): forall j in 0..i {old(ctx.members[j])} :: old(typeis(methodMember(ctx.members[j]), *concepts.Parameter)) ==> (exists k in 0..len(x.parameters) :: x.parameters[k] == old(methodParam(ctx.members[j]))) && old(methodParam(ctx.members[j])).owner == x
  nopanic

define locatorMember(x language.ILocatorMemberDeclContext) any = dyn(x, *language.LocatorMemberDeclContext).result
rec lastTarget(a seq language.ILocatorMemberDeclContext, n int) *concepts.Resource = n <= 0 ? nil : (typeis(locatorMember(a[n - 1]), *concepts.Resource) ? dyn(locatorMember(a[n - 1]), *concepts.Resource) : lastTarget(a, n - 1))
rec anyVariable(a seq language.ILocatorMemberDeclContext, n int) bool = n <= 0 ? false : (typeis(locatorMember(a[n - 1]), *names.Name) || anyVariable(a, n - 1))

func "(*language.Reader).ExitLocatorDecl" (r, ctx)
  props P11, P12
  requires r != nil && r.reporter != nil && ctx != nil && idOk(ctx.name) && language.comments != nil && annCtxsOk(ctx.annotations)
  requires forall i in 0..len(ctx.members) {ctx.members[i]} :: ctx.members[i] != nil && typeis(ctx.members[i], *language.LocatorMemberDeclContext) && dyn(ctx.members[i], *language.LocatorMemberDeclContext) != nil
  modifies everything
  ensures [P12] made: ctx == old(ctx) && ctx.result != nil && fresh(ctx.result) && ctx.result.name == old(nameOf(ctx.name))
  ensures [P12] doc: docSet(r, old(startOf(ctx.BaseParserRuleContext)), "", ctx.result.doc)
  ensures [P12] annotations: contents(ctx.result.annotations) == old(annsOf(elems(ctx.annotations), len(ctx.annotations)))
  ensures [P11] target: ctx.result.target == old(lastTarget(elems(ctx.members), len(ctx.members)))
  ensures [P12] variable: ctx.result.variable <==> old(anyVariable(elems(ctx.members), len(ctx.members)))
  ensures [P10] noTarget: ctx.result.target == nil ==> r.reporter.errors > old(r.reporter.errors)
  inv [AddAnnotation] (i: idx, o: concepts.Annotated): contents(dyn(o, *concepts.Locator).annotations) == old(annsOf(elems(ctx.annotations), i))
  inv [SetTarget] (i: idx, x: *concepts.Locator): x.target == old(lastTarget(elems(ctx.members), i))
  inv [SetTarget] (i: idx, x: *concepts.Locator): x.variable <==> old(anyVariable(elems(ctx.members), i))
  nopanic

func "(*language.Reader).ExitIdentifier" (r, ctx)
  props P12
  requires r != nil && ctx != nil && ctx.id != nil
  modifies ctx.result, ctx.text
  ensures text: ctx.text == tokenText(ctx.id)
  ensures name: ctx.result != nil && ctx.result.text == tokenText(ctx.id) && wordsOk(ctx.result)
  nopanic

define annParams(c *language.AnnotationContext) *language.AnnotationParametersContext = dyn(c.parameters, *language.AnnotationParametersContext)
fun childAnnotationIdentifier(c *language.AnnotationContext) language.IIdentifierContext
axiom childAnnotationIdentifierNode: forall c *language.AnnotationContext {childAnnotationIdentifier(c)} ::
  childAnnotationIdentifier(c) != nil && typeis(childAnnotationIdentifier(c), *language.IdentifierContext) && dyn(childAnnotationIdentifier(c), *language.IdentifierContext) != nil
extern func "(*language.AnnotationContext).Identifier" (c) -> (x) is childAnnotationIdentifier(c)
func "(*language.Reader).ExitAnnotation" (r, ctx)
  props P12
  requires r != nil && ctx != nil
  requires ctx.parameters != nil ==> typeis(ctx.parameters, *language.AnnotationParametersContext) && annParams(ctx) != nil
  modifies ctx.result
  ensures made: ctx.result != nil && fresh(ctx.result)
  ensures name: ctx.result.name == dyn(childAnnotationIdentifier(ctx), *language.IdentifierContext).text
  ensures given: ctx.parameters != nil && annParams(ctx).result != nil ==> (forall k string {annParams(ctx).result[k]} {ctx.result.parameters[k]} :: (has(ctx.result.parameters, k) <==> has(annParams(ctx).result, k)) &&
    (has(ctx.result.parameters, k) ==> ctx.result.parameters[k] == annParams(ctx).result[k]))
  ensures none: ctx.parameters == nil ==> (forall k string {has(ctx.result.parameters, k)} :: !has(ctx.result.parameters, k))
  inv (x: *concepts.Annotation): forall k string {visited(k)} {x.parameters[k]} :: (visited(k) <==> has(x.parameters, k)) && (visited(k) ==> x.parameters[k] == annParams(ctx).result[k])
  inv forall k string {visited(k)} :: visited(k) ==> has(annParams(ctx).result, k)
  inv (x: *concepts.Annotation): x.parameters != nil && fresh(x.parameters)
  nopanic

define parCtx(x language.IAnnotationParameterContext) *language.AnnotationParameterContext = dyn(x, *language.AnnotationParameterContext)
rec parNamed(a seq language.IAnnotationParameterContext, n int, k string) bool = n <= 0 ? false : (parCtx(a[n - 1]).name == k || parNamed(a, n - 1, k))
rec parValue(a seq language.IAnnotationParameterContext, n int, k string) any = n <= 0 ? nil : (parCtx(a[n - 1]).name == k ? parCtx(a[n - 1]).value : parValue(a, n - 1, k))
func "(*language.Reader).ExitAnnotationParameters" (r, ctx)
  props P12
  requires r != nil && ctx != nil
  requires forall i in 0..len(ctx.parameters) {ctx.parameters[i]} :: ctx.parameters[i] != nil && typeis(ctx.parameters[i], *language.AnnotationParameterContext) && dyn(ctx.parameters[i], *language.AnnotationParameterContext) != nil
  modifies ctx.result
  ensures made: ctx.result != nil && fresh(ctx.result)
  ensures names: forall k string {has(ctx.result, k)} :: has(ctx.result, k) <==> parNamed(elems(ctx.parameters), len(ctx.parameters), k)
  ensures values: forall k string {ctx.result[k]} :: has(ctx.result, k) ==> ctx.result[k] == parValue(elems(ctx.parameters), len(ctx.parameters), k)
  inv (i: idx, m: map[string]any): fresh(m) && (forall k string {has(m, k)} :: has(m, k) <==> parNamed(elems(ctx.parameters), i, k))
  inv (i: idx, m: map[string]any): forall k string {m[k]} :: has(m, k) ==> m[k] == parValue(elems(ctx.parameters), i, k)
  nopanic

fun childAnnotationParameterIdentifier(c *language.AnnotationParameterContext) language.IIdentifierContext
axiom childAnnotationParameterIdentifierNode: forall c *language.AnnotationParameterContext {childAnnotationParameterIdentifier(c)} ::
  childAnnotationParameterIdentifier(c) != nil && typeis(childAnnotationParameterIdentifier(c), *language.IdentifierContext) && dyn(childAnnotationParameterIdentifier(c), *language.IdentifierContext) != nil
extern func "(*language.AnnotationParameterContext).Identifier" (c) -> (x) is childAnnotationParameterIdentifier(c)
fun childAnnotationParameterLiteral(c *language.AnnotationParameterContext) language.ILiteralContext
axiom childAnnotationParameterLiteralNode: forall c *language.AnnotationParameterContext {childAnnotationParameterLiteral(c)} ::
  childAnnotationParameterLiteral(c) != nil && typeis(childAnnotationParameterLiteral(c), *language.LiteralContext) && dyn(childAnnotationParameterLiteral(c), *language.LiteralContext) != nil
extern func "(*language.AnnotationParameterContext).Literal" (c) -> (x) is childAnnotationParameterLiteral(c)
func "(*language.Reader).ExitAnnotationParameter" (r, ctx)
  props P12
  requires r != nil && ctx != nil
  modifies ctx.name, ctx.value
  ensures name: ctx.name == dyn(childAnnotationParameterIdentifier(ctx), *language.IdentifierContext).text
  ensures value: ctx.value == dyn(childAnnotationParameterLiteral(ctx), *language.LiteralContext).result
  nopanic
