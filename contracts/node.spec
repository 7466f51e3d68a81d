// Contracts of the nodes of the syntax tree that give their value to the node above (P12).
//
// The nodes below are searched by ANTLR using reflection: the functions that do it are assumed to depend on the node
// only, and to give nodes of the type of the rule.

import strconv "strconv"

fun childResourceMemberDeclMethodDecl(c *language.ResourceMemberDeclContext) language.IMethodDeclContext
axiom childResourceMemberDeclMethodDeclNode: forall c *language.ResourceMemberDeclContext {childResourceMemberDeclMethodDecl(c)} :: childResourceMemberDeclMethodDecl(c) != nil ==> typeis(childResourceMemberDeclMethodDecl(c), *language.MethodDeclContext) && dyn(childResourceMemberDeclMethodDecl(c), *language.MethodDeclContext) != nil
extern func "(*language.ResourceMemberDeclContext).MethodDecl" (c) -> (x) is childResourceMemberDeclMethodDecl(c)

fun childResourceMemberDeclLocatorDecl(c *language.ResourceMemberDeclContext) language.ILocatorDeclContext
axiom childResourceMemberDeclLocatorDeclNode: forall c *language.ResourceMemberDeclContext {childResourceMemberDeclLocatorDecl(c)} :: childResourceMemberDeclLocatorDecl(c) != nil ==> typeis(childResourceMemberDeclLocatorDecl(c), *language.LocatorDeclContext) && dyn(childResourceMemberDeclLocatorDecl(c), *language.LocatorDeclContext) != nil
extern func "(*language.ResourceMemberDeclContext).LocatorDecl" (c) -> (x) is childResourceMemberDeclLocatorDecl(c)
func "(*language.Reader).ExitResourceMemberDecl" (r, ctx)
  props P12
  requires r != nil && ctx != nil && r.reporter != nil
  modifies ctx.result, r.reporter.errors
  ensures vMethodDecl: childResourceMemberDeclMethodDecl(ctx) != nil ==> typeis(ctx.result, *concepts.Method) && dyn(ctx.result, *concepts.Method) == dyn(childResourceMemberDeclMethodDecl(ctx), *language.MethodDeclContext).result && r.reporter.errors == old(r.reporter.errors)
  ensures vLocatorDecl: childResourceMemberDeclMethodDecl(ctx) == nil && childResourceMemberDeclLocatorDecl(ctx) != nil ==> typeis(ctx.result, *concepts.Locator) && dyn(ctx.result, *concepts.Locator) == dyn(childResourceMemberDeclLocatorDecl(ctx), *language.LocatorDeclContext).result && r.reporter.errors == old(r.reporter.errors)
  ensures none: childResourceMemberDeclMethodDecl(ctx) == nil && childResourceMemberDeclLocatorDecl(ctx) == nil ==> ctx.result == old(ctx.result) && r.reporter.errors == old(r.reporter.errors)
  nopanic

fun childMethodMemberDeclMethodParameterDecl(c *language.MethodMemberDeclContext) language.IMethodParameterDeclContext
axiom childMethodMemberDeclMethodParameterDeclNode: forall c *language.MethodMemberDeclContext {childMethodMemberDeclMethodParameterDecl(c)} :: childMethodMemberDeclMethodParameterDecl(c) != nil ==> typeis(childMethodMemberDeclMethodParameterDecl(c), *language.MethodParameterDeclContext) && dyn(childMethodMemberDeclMethodParameterDecl(c), *language.MethodParameterDeclContext) != nil
extern func "(*language.MethodMemberDeclContext).MethodParameterDecl" (c) -> (x) is childMethodMemberDeclMethodParameterDecl(c)
func "(*language.Reader).ExitMethodMemberDecl" (r, ctx)
  props P12
  requires r != nil && ctx != nil && r.reporter != nil
  modifies ctx.result, r.reporter.errors
  ensures vMethodParameterDecl: childMethodMemberDeclMethodParameterDecl(ctx) != nil ==> typeis(ctx.result, *concepts.Parameter) && dyn(ctx.result, *concepts.Parameter) == dyn(childMethodMemberDeclMethodParameterDecl(ctx), *language.MethodParameterDeclContext).result && r.reporter.errors == old(r.reporter.errors)
  ensures none: childMethodMemberDeclMethodParameterDecl(ctx) == nil ==> ctx.result == old(ctx.result) && r.reporter.errors == old(r.reporter.errors)
  nopanic

fun childLocatorMemberDeclLocatorTargetDecl(c *language.LocatorMemberDeclContext) language.ILocatorTargetDeclContext
axiom childLocatorMemberDeclLocatorTargetDeclNode: forall c *language.LocatorMemberDeclContext {childLocatorMemberDeclLocatorTargetDecl(c)} :: childLocatorMemberDeclLocatorTargetDecl(c) != nil ==> typeis(childLocatorMemberDeclLocatorTargetDecl(c), *language.LocatorTargetDeclContext) && dyn(childLocatorMemberDeclLocatorTargetDecl(c), *language.LocatorTargetDeclContext) != nil
extern func "(*language.LocatorMemberDeclContext).LocatorTargetDecl" (c) -> (x) is childLocatorMemberDeclLocatorTargetDecl(c)

fun childLocatorMemberDeclLocatorVariableDecl(c *language.LocatorMemberDeclContext) language.ILocatorVariableDeclContext
axiom childLocatorMemberDeclLocatorVariableDeclNode: forall c *language.LocatorMemberDeclContext {childLocatorMemberDeclLocatorVariableDecl(c)} :: childLocatorMemberDeclLocatorVariableDecl(c) != nil ==> typeis(childLocatorMemberDeclLocatorVariableDecl(c), *language.LocatorVariableDeclContext) && dyn(childLocatorMemberDeclLocatorVariableDecl(c), *language.LocatorVariableDeclContext) != nil
extern func "(*language.LocatorMemberDeclContext).LocatorVariableDecl" (c) -> (x) is childLocatorMemberDeclLocatorVariableDecl(c)
func "(*language.Reader).ExitLocatorMemberDecl" (r, ctx)
  props P12
  requires r != nil && ctx != nil && r.reporter != nil
  modifies ctx.result, r.reporter.errors
  ensures vLocatorTargetDecl: childLocatorMemberDeclLocatorTargetDecl(ctx) != nil ==> typeis(ctx.result, *concepts.Resource) && dyn(ctx.result, *concepts.Resource) == dyn(childLocatorMemberDeclLocatorTargetDecl(ctx), *language.LocatorTargetDeclContext).result && r.reporter.errors == old(r.reporter.errors)
  ensures vLocatorVariableDecl: childLocatorMemberDeclLocatorTargetDecl(ctx) == nil && childLocatorMemberDeclLocatorVariableDecl(ctx) != nil ==> typeis(ctx.result, *names.Name) && dyn(ctx.result, *names.Name) == dyn(childLocatorMemberDeclLocatorVariableDecl(ctx), *language.LocatorVariableDeclContext).result && r.reporter.errors == old(r.reporter.errors)
  ensures none: childLocatorMemberDeclLocatorTargetDecl(ctx) == nil && childLocatorMemberDeclLocatorVariableDecl(ctx) == nil ==> ctx.result == old(ctx.result) && r.reporter.errors == old(r.reporter.errors)
  nopanic

fun childErrorMemberDeclErrorCodeDecl(c *language.ErrorMemberDeclContext) language.IErrorCodeDeclContext
axiom childErrorMemberDeclErrorCodeDeclNode: forall c *language.ErrorMemberDeclContext {childErrorMemberDeclErrorCodeDecl(c)} :: childErrorMemberDeclErrorCodeDecl(c) != nil ==> typeis(childErrorMemberDeclErrorCodeDecl(c), *language.ErrorCodeDeclContext) && dyn(childErrorMemberDeclErrorCodeDecl(c), *language.ErrorCodeDeclContext) != nil
extern func "(*language.ErrorMemberDeclContext).ErrorCodeDecl" (c) -> (x) is childErrorMemberDeclErrorCodeDecl(c)
func "(*language.Reader).ExitErrorMemberDecl" (r, ctx)
  props P12
  requires r != nil && ctx != nil && r.reporter != nil
  modifies ctx.result, r.reporter.errors
  ensures vErrorCodeDecl: childErrorMemberDeclErrorCodeDecl(ctx) != nil ==> typeis(ctx.result, int) && dyn(ctx.result, int) == dyn(childErrorMemberDeclErrorCodeDecl(ctx), *language.ErrorCodeDeclContext).result && r.reporter.errors == old(r.reporter.errors)
  ensures none: childErrorMemberDeclErrorCodeDecl(ctx) == nil ==> ctx.result == old(ctx.result) && r.reporter.errors == old(r.reporter.errors)
  nopanic

fun childLiteralBooleanLiteral(c *language.LiteralContext) language.IBooleanLiteralContext
axiom childLiteralBooleanLiteralNode: forall c *language.LiteralContext {childLiteralBooleanLiteral(c)} :: childLiteralBooleanLiteral(c) != nil ==> typeis(childLiteralBooleanLiteral(c), *language.BooleanLiteralContext) && dyn(childLiteralBooleanLiteral(c), *language.BooleanLiteralContext) != nil
extern func "(*language.LiteralContext).BooleanLiteral" (c) -> (x) is childLiteralBooleanLiteral(c)

fun childLiteralIntegerLiteral(c *language.LiteralContext) language.IIntegerLiteralContext
axiom childLiteralIntegerLiteralNode: forall c *language.LiteralContext {childLiteralIntegerLiteral(c)} :: childLiteralIntegerLiteral(c) != nil ==> typeis(childLiteralIntegerLiteral(c), *language.IntegerLiteralContext) && dyn(childLiteralIntegerLiteral(c), *language.IntegerLiteralContext) != nil
extern func "(*language.LiteralContext).IntegerLiteral" (c) -> (x) is childLiteralIntegerLiteral(c)

fun childLiteralStringLiteral(c *language.LiteralContext) language.IStringLiteralContext
axiom childLiteralStringLiteralNode: forall c *language.LiteralContext {childLiteralStringLiteral(c)} :: childLiteralStringLiteral(c) != nil ==> typeis(childLiteralStringLiteral(c), *language.StringLiteralContext) && dyn(childLiteralStringLiteral(c), *language.StringLiteralContext) != nil
extern func "(*language.LiteralContext).StringLiteral" (c) -> (x) is childLiteralStringLiteral(c)
func "(*language.Reader).ExitLiteral" (r, ctx)
  props P12
  requires r != nil && ctx != nil && r.reporter != nil
  modifies ctx.result, r.reporter.errors
  ensures vBooleanLiteral: childLiteralBooleanLiteral(ctx) != nil ==> typeis(ctx.result, bool) && dyn(ctx.result, bool) == dyn(childLiteralBooleanLiteral(ctx), *language.BooleanLiteralContext).result && r.reporter.errors == old(r.reporter.errors)
  ensures vIntegerLiteral: childLiteralBooleanLiteral(ctx) == nil && childLiteralIntegerLiteral(ctx) != nil ==> typeis(ctx.result, int) && dyn(ctx.result, int) == dyn(childLiteralIntegerLiteral(ctx), *language.IntegerLiteralContext).result && r.reporter.errors == old(r.reporter.errors)
  ensures vStringLiteral: childLiteralBooleanLiteral(ctx) == nil && childLiteralIntegerLiteral(ctx) == nil && childLiteralStringLiteral(ctx) != nil ==> typeis(ctx.result, string) && dyn(ctx.result, string) == dyn(childLiteralStringLiteral(ctx), *language.StringLiteralContext).result && r.reporter.errors == old(r.reporter.errors)
  ensures none: childLiteralBooleanLiteral(ctx) == nil && childLiteralIntegerLiteral(ctx) == nil && childLiteralStringLiteral(ctx) == nil ==> ctx.result == old(ctx.result) && r.reporter.errors == old(r.reporter.errors) + 1
  nopanic

func "(*language.Reader).ExitLocatorTargetDecl" (r, ctx)
  props P11, P12
  requires r != nil && ctx != nil && ctx.reference != nil && typeis(ctx.reference, *language.ResourceReferenceContext) && dyn(ctx.reference, *language.ResourceReferenceContext) != nil
  modifies ctx.result
  ensures target: ctx.result == dyn(ctx.reference, *language.ResourceReferenceContext).result
  nopanic
func "(*language.Reader).ExitLocatorVariableDecl" (r, ctx)
  props P12
  requires r != nil && ctx != nil && idOk(ctx.name)
  modifies ctx.result
  ensures variable: ctx.result == nameOf(ctx.name)
  nopanic
func "(*language.Reader).ExitAttributeKind" (r, ctx)
  props P12
  requires r != nil && ctx != nil
  modifies ctx.result
  ensures kind: ctx.result == tokenType(startOf(ctx.BaseParserRuleContext))
  nopanic
fun tokenType(t antlr.Token) int
extern func "(antlr.Token).GetTokenType" (t) -> (x) is tokenType(t)
fun tokenText(t antlr.Token) string
extern func "(antlr.Token).GetText" (t) -> (x) is tokenText(t)
fun treeText(t any) string

// Numbers and texts of the literals.
fun atoiOk(s string) bool
fun atoi(s string) int
extern func "strconv.Atoi" (s) -> (n, err)
  ensures err == nil <==> atoiOk(s)
  ensures err == nil ==> n == atoi(s)
fun unquoteOk(s string) bool
fun unquoted(s string) string
extern func "strconv.Unquote" (s) -> (t, err)
  ensures err == nil <==> unquoteOk(s)
  ensures err == nil ==> t == unquoted(s)

func "(*language.Reader).ExitErrorCodeDecl" (r, ctx)
  props P10, P12
  requires r != nil && r.reporter != nil && ctx != nil && ctx.code != nil
  modifies ctx.result, r.reporter.errors
  ensures code: atoiOk(tokenText(ctx.code)) ==> ctx.result == atoi(tokenText(ctx.code)) && r.reporter.errors == old(r.reporter.errors)
  ensures wrong: !atoiOk(tokenText(ctx.code)) ==> r.reporter.errors == old(r.reporter.errors) + 1
  nopanic

fun termBooleanLiteralTRUE(c *language.BooleanLiteralContext) antlr.TerminalNode
extern func "(*language.BooleanLiteralContext).TRUE" (c) -> (x) is termBooleanLiteralTRUE(c)

fun termBooleanLiteralFALSE(c *language.BooleanLiteralContext) antlr.TerminalNode
extern func "(*language.BooleanLiteralContext).FALSE" (c) -> (x) is termBooleanLiteralFALSE(c)

fun termIntegerLiteralINTEGER_LITERAL(c *language.IntegerLiteralContext) antlr.TerminalNode
extern func "(*language.IntegerLiteralContext).INTEGER_LITERAL" (c) -> (x) is termIntegerLiteralINTEGER_LITERAL(c)

fun termStringLiteralSTRING_LITERAL(c *language.StringLiteralContext) antlr.TerminalNode
extern func "(*language.StringLiteralContext).STRING_LITERAL" (c) -> (x) is termStringLiteralSTRING_LITERAL(c)

fun nodeText(n antlr.TerminalNode) string
extern func "(antlr.ParseTree).GetText" (n) -> (x) is nodeText(n)
func "(*language.Reader).ExitBooleanLiteral" (r, ctx)
  props P12
  requires r != nil && r.reporter != nil && ctx != nil
  modifies ctx.result, r.reporter.errors
  ensures yes: termBooleanLiteralTRUE(ctx) != nil ==> ctx.result && r.reporter.errors == old(r.reporter.errors)
  ensures no: termBooleanLiteralTRUE(ctx) == nil && termBooleanLiteralFALSE(ctx) != nil ==> !ctx.result && r.reporter.errors == old(r.reporter.errors)
  ensures none: termBooleanLiteralTRUE(ctx) == nil && termBooleanLiteralFALSE(ctx) == nil ==> r.reporter.errors == old(r.reporter.errors) + 1

func "(*language.Reader).ExitIntegerLiteral" (r, ctx)
  props P10, P12
  requires r != nil && r.reporter != nil && ctx != nil && termIntegerLiteralINTEGER_LITERAL(ctx) != nil
  modifies ctx.result, r.reporter.errors
  ensures value: atoiOk(nodeText(termIntegerLiteralINTEGER_LITERAL(ctx))) ==> ctx.result == atoi(nodeText(termIntegerLiteralINTEGER_LITERAL(ctx))) && r.reporter.errors == old(r.reporter.errors)
  ensures wrong: !atoiOk(nodeText(termIntegerLiteralINTEGER_LITERAL(ctx))) ==> r.reporter.errors == old(r.reporter.errors) + 1

func "(*language.Reader).ExitStringLiteral" (r, ctx)
  props P10, P12
  requires r != nil && r.reporter != nil && ctx != nil && termStringLiteralSTRING_LITERAL(ctx) != nil
  modifies ctx.result, r.reporter.errors
  ensures value: unquoteOk(nodeText(termStringLiteralSTRING_LITERAL(ctx))) ==> ctx.result == unquoted(nodeText(termStringLiteralSTRING_LITERAL(ctx))) && r.reporter.errors == old(r.reporter.errors)
  ensures wrong: !unquoteOk(nodeText(termStringLiteralSTRING_LITERAL(ctx))) ==> r.reporter.errors == old(r.reporter.errors) + 1

extern func "(*antlr.BaseParserRuleContext).GetText" (c) -> (s)
