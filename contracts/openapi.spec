// Contracts of the generator of OpenAPI specifications. The JSON library is described by the sequence of tokens written, without
// separators, and by the state of the separators: 0 when none can be written, 1 when one is needed before the next element, and
// 2 when one has just been written. Writing a separator in the wrong place, or missing one, makes the document `bad`.

import openapi "github.com/openshift-online/ocm-api-metamodel/pkg/generators/openapi"
import jsoniter "github.com/json-iterator/go"

ghost jsoniter.Stream.doc slist
ghost jsoniter.Stream.after int
ghost jsoniter.Stream.bad bool

fun keyTok(n string) string
fun valTok(x any) string

extern func "(*jsoniter.Stream).WriteMore" (s)
  modifies s.after, s.bad
  ensures s.after == 2
  ensures s.bad <==> old(s.bad) || old(s.after) != 1
extern func "(*jsoniter.Stream).WriteObjectField" (s, name)
  modifies s.doc, s.after, s.bad
  ensures s.doc == snoc(old(s.doc), keyTok(name)) && s.after == 0
  ensures s.bad <==> old(s.bad) || old(s.after) == 1
extern func "(*jsoniter.Stream).WriteObjectStart" (s)
  modifies s.doc, s.after, s.bad
  ensures s.doc == snoc(old(s.doc), "{") && s.after == 0
  ensures s.bad <==> old(s.bad) || old(s.after) == 1
extern func "(*jsoniter.Stream).WriteArrayStart" (s)
  modifies s.doc, s.after, s.bad
  ensures s.doc == snoc(old(s.doc), "[") && s.after == 0
  ensures s.bad <==> old(s.bad) || old(s.after) == 1
extern func "(*jsoniter.Stream).WriteObjectEnd" (s)
  modifies s.doc, s.after, s.bad
  ensures s.doc == snoc(old(s.doc), "}") && s.after == 1
  ensures s.bad <==> old(s.bad) || old(s.after) == 2
extern func "(*jsoniter.Stream).WriteArrayEnd" (s)
  modifies s.doc, s.after, s.bad
  ensures s.doc == snoc(old(s.doc), "]") && s.after == 1
  ensures s.bad <==> old(s.bad) || old(s.after) == 2
extern func "(*jsoniter.Stream).WriteVal" (s, x)
  modifies s.doc, s.after, s.bad
  ensures s.doc == snoc(old(s.doc), valTok(x)) && s.after == 1
  ensures s.bad <==> old(s.bad) || old(s.after) == 1

// ---- buffer ----

define top(b *openapi.Buffer) int = *b.stack[len(b.stack) - 1]
define bufOk(b *openapi.Buffer) bool =
  b != nil && b.stream != nil && b.reporter != nil && len(b.stack) >= 1 && !b.stream.bad &&
  (forall i int {b.stack[i]} :: 0 <= i < len(b.stack) ==> b.stack[i] != nil && *b.stack[i] >= 0) &&
  (top(b) > 0 <==> b.stream.after == 1) && (top(b) == 0 <==> b.stream.after == 0)

define start(d slist, name string, mark string) slist = snoc(snoc(d, keyTok(name)), mark)
define field(d slist, name string, x any) slist = snoc(snoc(d, keyTok(name)), valTok(x))

func "(*openapi.Buffer).StartObject" (b, names)
  props P18
  requires bufOk(b)
  modifies b.stack, allof(b.stack), allof(b.stack[0]), b.stream.doc, b.stream.after, b.stream.bad
  ensures ok: bufOk(b)
  ensures depth: len(b.stack) == old(len(b.stack)) + 1
  ensures doc: b.stream.doc == (len(names) > 0 ? start(old(b.stream.doc), names[0], "{") : snoc(old(b.stream.doc), "{"))
func "(*openapi.Buffer).StartArray" (b, names)
  props P18
  requires bufOk(b)
  modifies b.stack, allof(b.stack), allof(b.stack[0]), b.stream.doc, b.stream.after, b.stream.bad
  ensures ok: bufOk(b)
  ensures depth: len(b.stack) == old(len(b.stack)) + 1
  ensures doc: b.stream.doc == (len(names) > 0 ? start(old(b.stream.doc), names[0], "[") : snoc(old(b.stream.doc), "["))
func "(*openapi.Buffer).EndObject" (b)
  props P18
  requires bufOk(b) && len(b.stack) >= 2
  modifies b.stack, allof(b.stack[0]), b.stream.doc, b.stream.after, b.stream.bad
  ensures ok: bufOk(b)
  ensures depth: len(b.stack) == old(len(b.stack)) - 1
  ensures doc: b.stream.doc == snoc(old(b.stream.doc), "}")
func "(*openapi.Buffer).EndArray" (b)
  props P18
  requires bufOk(b) && len(b.stack) >= 2
  modifies b.stack, allof(b.stack[0]), b.stream.doc, b.stream.after, b.stream.bad
  ensures ok: bufOk(b)
  ensures depth: len(b.stack) == old(len(b.stack)) - 1
  ensures doc: b.stream.doc == snoc(old(b.stream.doc), "]")
func "(*openapi.Buffer).Field" (b, name, value)
  props P18
  requires bufOk(b)
  modifies allof(b.stack[0]), b.stream.doc, b.stream.after, b.stream.bad
  ensures ok: bufOk(b)
  ensures doc: b.stream.doc == field(old(b.stream.doc), name, value)
func "(*openapi.Buffer).Item" (b, value)
  props P18
  requires bufOk(b)
  modifies allof(b.stack[0]), b.stream.doc, b.stream.after, b.stream.bad
  ensures ok: bufOk(b)
  ensures doc: b.stream.doc == snoc(old(b.stream.doc), valTok(value))

// ---- names ----

define camel(n *names.Name) string = strJoin(capWords(elems(n.words), len(n.words)), "")
func "(*openapi.NamesCalculator).SchemaName" (c, t) -> (r)
  props P18
  requires t != nil && wordsOk(t.name)
  is camel(t.name)
  nopanic
func "(*openapi.NamesCalculator).AttributePropertyName" (c, x) -> (r)
  props P18
  requires x != nil && wordsOk(x.name) && annsOk(&x.annotatedSupport)
  is jsonName(&x.annotatedSupport, x.name)
  nopanic
func "(*openapi.NamesCalculator).ParameterPropertyName" (c, x) -> (r)
  props P18
  requires x != nil && wordsOk(x.name) && annsOk(&x.annotatedSupport)
  is jsonName(&x.annotatedSupport, x.name)
  nopanic

// ---- schemas ----

define gOk(g *openapi.OpenAPIGenerator) bool =
  g != nil && bufOk(g.buffer) && g.names != nil && g.binding != nil && g.reporter != nil
define end(d slist) slist = snoc(d, "}")
define text(d slist, name string, x string) slist = field(d, name, box(x))
rec description(d slist, x string) slist = x == "" ? d : text(d, "description", x)

func "(*openapi.OpenAPIGenerator).generateDescription" (g, doc)
  props P18
  requires gOk(g)
  modifies g.buffer.stack, allof(g.buffer.stack), allof(g.buffer.stack[0]), g.buffer.stream.doc, g.buffer.stream.after, g.buffer.stream.bad
  ensures ok: bufOk(g.buffer)
  ensures depth: len(g.buffer.stack) == old(len(g.buffer.stack))
  ensures doc: g.buffer.stream.doc == description(old(g.buffer.stream.doc), doc)

define refTo(t *concepts.Type) string = "#/components/schemas/" + camel(t.name)
rec plainRef(d slist, t *concepts.Type) slist =
  isB(t, "boolean") ? text(d, "type", "boolean") :
  isB(t, "integer") ? text(text(d, "type", "integer"), "format", "int32") :
  isB(t, "long") ? text(text(d, "type", "integer"), "format", "int64") :
  isB(t, "float") ? text(text(d, "type", "number"), "format", "float") :
  isB(t, "string") ? text(d, "type", "string") :
  isB(t, "date") ? text(text(d, "type", "string"), "format", "date-time") :
  isB(t, "interface") ? text(d, "type", "object") :
  text(d, "$ref", refTo(t))
rec schemaRef(d slist, t *concepts.Type) slist =
  t.kind == 4 ? end(plainRef(start(text(d, "type", "array"), "items", "{"), t.element)) :
  t.kind == 5 ? end(plainRef(start(text(d, "type", "object"), "additionalProperties", "{"), t.element)) :
  plainRef(d, t)
define usable(t *concepts.Type) bool = nestedOk(t) && representable(t)

func "(*openapi.OpenAPIGenerator).generateSchemaReference" (g, t)
  props P18
  requires gOk(g) && usable(t)
  modifies g.buffer.stack, allof(g.buffer.stack), allof(g.buffer.stack[0]), g.buffer.stream.doc, g.buffer.stream.after, g.buffer.stream.bad
  ensures ok: bufOk(g.buffer)
  ensures depth: len(g.buffer.stack) == old(len(g.buffer.stack))
  ensures doc: g.buffer.stream.doc == schemaRef(old(g.buffer.stream.doc), t)

rec attrOk(a *concepts.Attribute) bool =
  a != nil && wordsOk(a.name) && annsOk(&a.annotatedSupport) && usable(a.typ)
rec attrDoc(d slist, a *concepts.Attribute) slist =
  end(schemaRef(description(start(d, jsonName(&a.annotatedSupport, a.name), "{"), a.doc), a.typ))

func "(*openapi.OpenAPIGenerator).generateStructProperty" (g, a)
  props P18
  requires gOk(g) && attrOk(a)
  modifies g.buffer.stack, allof(g.buffer.stack), allof(g.buffer.stack[0]), g.buffer.stream.doc, g.buffer.stream.after, g.buffer.stream.bad
  ensures ok: bufOk(g.buffer)
  ensures depth: len(g.buffer.stack) == old(len(g.buffer.stack))
  ensures doc: g.buffer.stream.doc == attrDoc(old(g.buffer.stream.doc), a)

rec paramOk(p *concepts.Parameter) bool =
  p != nil && wordsOk(p.name) && annsOk(&p.annotatedSupport) && usable(p.typ)
rec propDoc(d slist, p *concepts.Parameter) slist =
  end(schemaRef(description(start(d, jsonName(&p.annotatedSupport, p.name), "{"), p.doc), p.typ))

func "(*openapi.OpenAPIGenerator).genrateParameterProperty" (g, p)
  props P18
  requires gOk(g) && paramOk(p)
  modifies g.buffer.stack, allof(g.buffer.stack), allof(g.buffer.stack[0]), g.buffer.stream.doc, g.buffer.stream.after, g.buffer.stream.bad
  ensures ok: bufOk(g.buffer)
  ensures depth: len(g.buffer.stack) == old(len(g.buffer.stack))
  ensures doc: g.buffer.stream.doc == propDoc(old(g.buffer.stream.doc), p)

rec valuesDoc(d slist, l list) slist = l == empty ? d : snoc(valuesDoc(d, initof(l)), valTok(box(jsonName(&lastof(l, *concepts.EnumValue).annotatedSupport, lastof(l, *concepts.EnumValue).name))))
define valueOk(x *concepts.EnumValue) bool = x != nil && wordsOk(x.name) && annsOk(&x.annotatedSupport)
rec enumDoc(d slist, t *concepts.Type) slist =
  end(snoc(valuesDoc(start(text(description(start(d, camel(t.name), "{"), t.doc), "type", "string"), "enum", "["), contents(t.values)), "]"))

func "(*openapi.OpenAPIGenerator).generateEnumSchema" (g, t)
  props P18
  requires gOk(g) && t != nil && wordsOk(t.name) && (forall i in 0..len(t.values) {t.values[i]} :: valueOk(t.values[i]))
  modifies g.buffer.stack, allof(g.buffer.stack), allof(g.buffer.stack[0]), g.buffer.stream.doc, g.buffer.stream.after, g.buffer.stream.bad
  ensures ok: bufOk(g.buffer)
  ensures depth: len(g.buffer.stack) == old(len(g.buffer.stack))
  ensures doc: g.buffer.stream.doc == enumDoc(old(g.buffer.stream.doc), t)
  inv bufOk(g.buffer) && len(g.buffer.stack) == atloop(len(g.buffer.stack))
  inv (i: idx): g.buffer.stream.doc == valuesDoc(atloop(g.buffer.stream.doc), listof(t.values, i))

define kindText(n string) string =
  "Indicates the type of this object. Will be '" + n + "' if this is a complete object or '" + n + "Link' if it is just a link."
axiom catEmpty: forall a string; b string {a + b} :: a + b == "" ==> a == "" && b == ""
define stringProp(d slist, name string, doc string) slist = end(text(description(start(d, name, "{"), doc), "type", "string"))
rec classDoc(d slist, n string) slist =
  stringProp(stringProp(stringProp(d, "kind", kindText(n)), "id", "Unique identifier of the object."), "href", "Self link.")
rec attrsDoc(d slist, l list) slist = l == empty ? d : attrDoc(attrsDoc(d, initof(l)), lastof(l, *concepts.Attribute))
define structBegin(d slist, t *concepts.Type) slist = start(description(start(d, camel(t.name), "{"), t.doc), "properties", "{")
rec structDoc(d slist, t *concepts.Type) slist =
  end(end(attrsDoc(t.kind == 1 ? classDoc(structBegin(d, t), camel(t.name)) : structBegin(d, t), contents(t.attributes))))

func "(*openapi.OpenAPIGenerator).generateStructSchema" (g, t)
  props P18
  hide attrDoc
  requires gOk(g) && t != nil && wordsOk(t.name) && (forall i in 0..len(t.attributes) {t.attributes[i]} :: attrOk(t.attributes[i]))
  modifies g.buffer.stack, allof(g.buffer.stack), allof(g.buffer.stack[0]), g.buffer.stream.doc, g.buffer.stream.after, g.buffer.stream.bad
  ensures ok: bufOk(g.buffer)
  ensures depth: len(g.buffer.stack) == old(len(g.buffer.stack))
  ensures doc: g.buffer.stream.doc == structDoc(old(g.buffer.stream.doc), t)
  inv bufOk(g.buffer) && len(g.buffer.stack) == atloop(len(g.buffer.stack))
  inv (i: idx): g.buffer.stream.doc == attrsDoc(atloop(g.buffer.stream.doc), listof(t.attributes, i))

rec metadataSchema(d slist) slist =
  end(end(stringProp(start(description(start(d, "Metadata", "{"), "Version metadata."), "properties", "{"), "server_version", "Version of the server.")))
func "(*openapi.OpenAPIGenerator).generateMetadataSchema" (g)
  props P18
  requires gOk(g)
  modifies g.buffer.stack, allof(g.buffer.stack), allof(g.buffer.stack[0]), g.buffer.stream.doc, g.buffer.stream.after, g.buffer.stream.bad
  ensures ok: bufOk(g.buffer)
  ensures depth: len(g.buffer.stack) == old(len(g.buffer.stack))
  ensures doc: g.buffer.stream.doc == metadataSchema(old(g.buffer.stream.doc))

define typeOfSchema(t *concepts.Type) bool =
  t != nil && wordsOk(t.name) && (t.kind == 2 ==> (forall i in 0..len(t.values) {t.values[i]} :: valueOk(t.values[i]))) &&
  (t.kind == 1 || t.kind == 7 ==> (forall i in 0..len(t.attributes) {t.attributes[i]} :: attrOk(t.attributes[i])))
rec schemaDoc(d slist, t *concepts.Type) slist = t.kind == 2 ? enumDoc(d, t) : (t.kind == 1 || t.kind == 7 ? structDoc(d, t) : d)
func "(*openapi.OpenAPIGenerator).generateSchema" (g, t)
  props P18
  requires gOk(g) && typeOfSchema(t)
  modifies g.buffer.stack, allof(g.buffer.stack), allof(g.buffer.stack[0]), g.buffer.stream.doc, g.buffer.stream.after, g.buffer.stream.bad
  ensures ok: bufOk(g.buffer)
  ensures depth: len(g.buffer.stack) == old(len(g.buffer.stack))
  ensures doc: g.buffer.stream.doc == schemaDoc(old(g.buffer.stream.doc), t)

rec errorSchema(d slist) slist =
  let d1 = stringProp(start(text(start(d, "Error", "{"), "type", "object"), "properties", "{"), "kind", "Indicates the type of this object. Will always be 'Error'") ::
  let d2 = end(text(text(description(start(d1, "id", "{"), "Numeric identifier of the error."), "type", "integer"), "format", "int32")) ::
  let d3 = stringProp(stringProp(stringProp(d2, "href", "Self link."), "code", "Globally unique code of the error, composed of the unique identifier of the API and the numeric identifier of the error. For example, for if the numeric identifier of the error is `93` and the identifier of the API is `clusters_mgmt` then the code will be `CLUSTERS-MGMT-93`."), "reason", "Human readable description of the error.") ::
  let d4 = end(field(text(description(start(d3, "details", "{"), "Extra information about the error."), "type", "object"), "additionalProperties", box(true))) ::
  end(end(d4))
func "(*openapi.OpenAPIGenerator).generateErrorSchema" (g)
  props P18
  requires gOk(g)
  modifies g.buffer.stack, allof(g.buffer.stack), allof(g.buffer.stack[0]), g.buffer.stream.doc, g.buffer.stream.after, g.buffer.stream.bad
  ensures ok: bufOk(g.buffer)
  ensures depth: len(g.buffer.stack) == old(len(g.buffer.stack))
  ensures doc: g.buffer.stream.doc == errorSchema(old(g.buffer.stream.doc))

// ---- methods ----

define contentBegin(d slist) slist = start(start(start(d, "content", "{"), "application/json", "{"), "schema", "{")
define contentEnd(d slist) slist = end(end(end(d)))
rec errorResponse(d slist) slist =
  end(contentEnd(text(contentBegin(description(start(d, "default", "{"), "Error.")), "$ref", "#/components/schemas/Error")))
rec metadataMethod(d slist) slist =
  let d1 = start(start(description(start(d, "get", "{"), "Retrieves the version metadata."), "responses", "{"), "200", "{") ::
  let d2 = end(contentEnd(text(contentBegin(description(d1, "Success.")), "$ref", "#/components/schemas/Metadata"))) ::
  end(end(errorResponse(d2)))
func "(*openapi.OpenAPIGenerator).generateMetadataMethod" (g)
  props P18
  requires gOk(g)
  modifies g.buffer.stack, allof(g.buffer.stack), allof(g.buffer.stack[0]), g.buffer.stream.doc, g.buffer.stream.after, g.buffer.stream.bad
  ensures ok: bufOk(g.buffer)
  ensures depth: len(g.buffer.stack) == old(len(g.buffer.stack))
  ensures doc: g.buffer.stream.doc == metadataMethod(old(g.buffer.stream.doc))

rec locOk(x *concepts.Locator) bool = x != nil && wordsOk(x.name) && annsOk(&x.annotatedSupport)
rec pathParam(d slist, x *concepts.Locator) slist =
  end(field(end(text(start(text(text(snoc(d, "{"), "name", httpName(&x.annotatedSupport, x.name) + "_id"), "in", "path"), "schema", "{"), "type", "string")), "required", box(true)))
func "(*openapi.OpenAPIGenerator).generatePathParameter" (g, x)
  props P18
  requires gOk(g) && locOk(x)
  modifies g.buffer.stack, allof(g.buffer.stack), allof(g.buffer.stack[0]), g.buffer.stream.doc, g.buffer.stream.after, g.buffer.stream.bad
  ensures ok: bufOk(g.buffer)
  ensures depth: len(g.buffer.stack) == old(len(g.buffer.stack))
  ensures doc: g.buffer.stream.doc == pathParam(old(g.buffer.stream.doc), x)

rec queryName(x *concepts.Parameter) string =
  annParam(&x.annotatedSupport, "http", "name") != "" ? annParam(&x.annotatedSupport, "http", "name") : jsonName(&x.annotatedSupport, x.name)
rec queryParam(d slist, x *concepts.Parameter) slist =
  end(end(schemaRef(start(text(description(text(snoc(d, "{"), "name", queryName(x)), x.doc), "in", "query"), "schema", "{"), x.typ)))
func "(*openapi.OpenAPIGenerator).generateQueryParameter" (g, x)
  props P18
  requires gOk(g) && paramOk(x)
  modifies g.buffer.stack, allof(g.buffer.stack), allof(g.buffer.stack[0]), g.buffer.stream.doc, g.buffer.stream.after, g.buffer.stream.bad
  ensures ok: bufOk(g.buffer)
  ensures depth: len(g.buffer.stack) == old(len(g.buffer.stack))
  ensures doc: g.buffer.stream.doc == queryParam(old(g.buffer.stream.doc), x)

// The lists of parameters given by the binding have only parameters of the method:
rec allOk(l list) bool = l == empty ? true : allOk(initof(l)) && paramOk(lastof(l, *concepts.Parameter))
rec methodOk(m *concepts.Method) bool =
  m != nil && wordsOk(m.name) && annsOk(&m.annotatedSupport) && (forall i in 0..len(m.parameters) {m.parameters[i]} :: paramOk(m.parameters[i]))
lemma inOk(a seq *concepts.Parameter, n int) induct n {allOk(inParams(a, n))} : (forall j in 0..n {a[j]} :: paramOk(a[j])) ==> allOk(inParams(a, n))
lemma outOk(a seq *concepts.Parameter, n int) induct n {allOk(outParams(a, n))} : (forall j in 0..n {a[j]} :: paramOk(a[j])) ==> allOk(outParams(a, n))
lemma scalarsOk(a seq *concepts.Parameter, n int) induct n {allOk(inScalars(a, n))} : (forall j in 0..n {a[j]} :: paramOk(a[j])) ==> allOk(inScalars(a, n))
lemma othersOk(a seq *concepts.Parameter, n int) induct n {allOk(inOthers(a, n))} : (forall j in 0..n {a[j]} :: paramOk(a[j])) ==> allOk(inOthers(a, n))
lemma eachOk(a seq *concepts.Parameter, n int, i int) induct n {allOk(listof(a, n)), a[i]} : allOk(listof(a, n)) && 0 <= i < n ==> paramOk(a[i])

lemma sizes(a seq *concepts.Parameter, n int) induct n {listof(a, n)} : (listof(a, n) == empty <==> n <= 0) && (n >= 1 ==> (initof(listof(a, n)) == empty <==> n <= 1))
rec propsDoc(d slist, l list) slist = l == empty ? d : propDoc(propsDoc(d, initof(l)), lastof(l, *concepts.Parameter))
define several(l list) bool = l != empty && initof(l) != empty
rec bodyDoc(d slist, m *concepts.Method, l list) slist =
  several(l) || !isStandard(m) ? end(propsDoc(start(text(d, "type", "object"), "properties", "{"), l)) : schemaRef(d, lastof(l, *concepts.Parameter).typ)
define outsOf(m *concepts.Method) list = outParams(elems(m.parameters), len(m.parameters))
rec statusOf(m *concepts.Method) string = decimal(named(m.name, "add") || named(m.name, "post") ? 201 :
  (named2(m.name, "async", "update") || named2(m.name, "async", "delete") ? 202 : (named(m.name, "delete") ? 204 : 200)))
rec responsesDoc(d slist, m *concepts.Method) slist =
  let d1 = description(start(start(d, "responses", "{"), statusOf(m), "{"), "Success.") ::
  let d2 = outsOf(m) == empty ? d1 : contentEnd(bodyDoc(contentBegin(d1), m, outsOf(m))) ::
  end(errorResponse(end(d2)))
func "(*openapi.OpenAPIGenerator).generateResponses" (g, m)
  props P18
  hide propDoc, schemaRef
  requires gOk(g) && methodOk(m)
  apply allOk(outsOf(m))
  modifies g.buffer.stack, allof(g.buffer.stack), allof(g.buffer.stack[0]), g.buffer.stream.doc, g.buffer.stream.after, g.buffer.stream.bad
  ensures ok: bufOk(g.buffer)
  ensures depth: len(g.buffer.stack) == old(len(g.buffer.stack))
  ensures doc: g.buffer.stream.doc == responsesDoc(old(g.buffer.stream.doc), m)
  inv bufOk(g.buffer) && len(g.buffer.stack) == atloop(len(g.buffer.stack))
  inv (i: idx, s: []*concepts.Parameter): g.buffer.stream.doc == propsDoc(atloop(g.buffer.stream.doc), listof(s, i))
  inv (s: []*concepts.Parameter): allOk(contents(s))
  inv (s: []*concepts.Parameter): forall j in 0..len(s) {s[j]} :: paramOk(s[j])

rec variables(l list) list = l == empty ? empty : (lastof(l, *concepts.Locator).variable ? snoc(variables(initof(l)), lastof(l, *concepts.Locator)) : variables(initof(l)))
rec locsOk(l list) bool = l == empty ? true : locsOk(initof(l)) && locOk(lastof(l, *concepts.Locator))
lemma variablesOk(l list) induct l {locsOk(variables(l))} : locsOk(l) ==> locsOk(variables(l))
lemma eachLocOk(a seq *concepts.Locator, n int, i int) induct n {locsOk(listof(a, n)), a[i]} : locsOk(listof(a, n)) && 0 <= i < n ==> locOk(a[i])
lemma sizesLoc(a seq *concepts.Locator, n int) induct n {listof(a, n)} : (listof(a, n) == empty <==> n <= 0)
rec pathParams(d slist, l list) slist = l == empty ? d : pathParam(pathParams(d, initof(l)), lastof(l, *concepts.Locator))
rec queryParams(d slist, l list) slist = l == empty ? d : queryParam(queryParams(d, initof(l)), lastof(l, *concepts.Parameter))
define queryOf(m *concepts.Method) list = isStandard(m) ? inScalars(elems(m.parameters), len(m.parameters)) : empty
define bodyOf(m *concepts.Method) list =
  isStandard(m) ? inOthers(elems(m.parameters), len(m.parameters)) : inParams(elems(m.parameters), len(m.parameters))
rec urlDoc(d slist, l list, m *concepts.Method) slist =
  variables(l) == empty && queryOf(m) == empty ? d :
    snoc(queryParams(pathParams(start(d, "parameters", "["), variables(l)), queryOf(m)), "]")
func "(*openapi.OpenAPIGenerator).generateURLParameters" (g, path, m)
  props P18
  hide pathParam, queryParam, schemaRef, httpName, jsonName
  requires gOk(g) && methodOk(m) && locsOk(contents(path))
  apply allOk(queryOf(m))
  apply locsOk(variables(contents(path)))
  modifies g.buffer.stack, allof(g.buffer.stack), allof(g.buffer.stack[0]), g.buffer.stream.doc, g.buffer.stream.after, g.buffer.stream.bad
  ensures ok: bufOk(g.buffer)
  ensures depth: len(g.buffer.stack) == old(len(g.buffer.stack))
  ensures doc: g.buffer.stream.doc == old(urlDoc(g.buffer.stream.doc, contents(path), m))
  inv bufOk(g.buffer) && len(g.buffer.stack) == atloop(len(g.buffer.stack))
  inv (i: idx, s: []*concepts.Locator): contents(s) == old(variables(listof(path, i)))
  inv (i: idx, s: []*concepts.Parameter, t: []*concepts.Parameter): contents(s) == listof(t, i)
  inv (i: idx, s: []*concepts.Locator): g.buffer.stream.doc == pathParams(atloop(g.buffer.stream.doc), listof(s, i))
  inv (i: idx, s: []*concepts.Parameter): g.buffer.stream.doc == queryParams(atloop(g.buffer.stream.doc), listof(s, i))
  inv (s: []*concepts.Parameter): allOk(contents(s))
  inv (s: []*concepts.Locator): locsOk(contents(s))

rec methodDoc(d slist, l list, m *concepts.Method) slist =
  let d1 = urlDoc(description(start(d, lower(httpMethod(m)), "{"), m.doc), l, m) ::
  let d2 = bodyOf(m) == empty ? d1 : end(contentEnd(bodyDoc(contentBegin(start(d1, "requestBody", "{")), m, bodyOf(m)))) ::
  end(responsesDoc(d2, m))
func "(*openapi.OpenAPIGenerator).generateMethod" (g, path, m)
  props P18
  hide responsesDoc, urlDoc, locsOk, propDoc, schemaRef, jsonName
  requires gOk(g) && methodOk(m) && locsOk(contents(path))
  apply allOk(bodyOf(m))
  modifies g.buffer.stack, allof(g.buffer.stack), allof(g.buffer.stack[0]), g.buffer.stream.doc, g.buffer.stream.after, g.buffer.stream.bad
  ensures ok: bufOk(g.buffer)
  ensures depth: len(g.buffer.stack) == old(len(g.buffer.stack))
  ensures doc: g.buffer.stream.doc == old(methodDoc(g.buffer.stream.doc, contents(path), m))
  inv bufOk(g.buffer) && len(g.buffer.stack) == atloop(len(g.buffer.stack))
  inv (i: idx, s: []*concepts.Parameter): g.buffer.stream.doc == propsDoc(atloop(g.buffer.stream.doc), listof(s, i))
  inv (s: []*concepts.Parameter): allOk(contents(s))

// ---- paths ----

rec bare(l list) list = l == empty ? empty : (segment(lastof(l, *concepts.Method)) == "" ? snoc(bare(initof(l)), lastof(l, *concepts.Method)) : bare(initof(l)))
rec actions(l list) list = l == empty ? empty : (segment(lastof(l, *concepts.Method)) == "" ? actions(initof(l)) : snoc(actions(initof(l)), lastof(l, *concepts.Method)))
rec hasGet(l list) bool = l == empty ? false : hasGet(initof(l)) || httpMethod(lastof(l, *concepts.Method)) == "GET"
rec methodsOk(l list) bool = l == empty ? true : methodsOk(initof(l)) && methodOk(lastof(l, *concepts.Method))
lemma bareOk(l list) induct l {methodsOk(bare(l))} : methodsOk(l) ==> methodsOk(bare(l))
lemma actionsOk(l list) induct l {methodsOk(actions(l))} : methodsOk(l) ==> methodsOk(actions(l))
lemma eachMethodOk(a seq *concepts.Method, n int, i int) induct n {methodsOk(listof(a, n)), a[i]} : methodsOk(listof(a, n)) && 0 <= i < n ==> methodOk(a[i])
lemma sizesMethod(a seq *concepts.Method, n int) induct n {listof(a, n)} : (listof(a, n) == empty <==> n <= 0)
rec methodsDoc(d slist, p list, l list) slist = l == empty ? d : methodDoc(methodsDoc(d, p, initof(l)), p, lastof(l, *concepts.Method))
rec actionsDoc(d slist, prefix string, p list, l list) slist =
  l == empty ? d : end(methodDoc(start(actionsDoc(d, prefix, p, initof(l)), prefix + "/" + segment(lastof(l, *concepts.Method)), "{"), p, lastof(l, *concepts.Method)))
define rootResource(r *concepts.Resource) bool = r.owner != nil && has(r.owner.resources, "root") && r == r.owner.resources["root"]
define resourceOk(r *concepts.Resource) bool = r != nil && (r.owner != nil ==> r.owner.resources != nil) && methodsOk(contents(r.methods))
define withMetadata(r *concepts.Resource) bool = rootResource(r) && !hasGet(bare(contents(r.methods)))
rec ownDoc(d slist, prefix string, p list, r *concepts.Resource) slist =
  withMetadata(r) || bare(contents(r.methods)) != empty ?
    end(methodsDoc(withMetadata(r) ? metadataMethod(start(d, prefix, "{")) : start(d, prefix, "{"), p, bare(contents(r.methods)))) : d
rec resourceDoc(d slist, prefix string, p list, r *concepts.Resource) slist =
  actionsDoc(ownDoc(d, prefix, p, r), prefix, p, actions(contents(r.methods)))
func "(*openapi.OpenAPIGenerator).generateResourcePaths" (g, prefix, path, r)
  props P18
  hide methodDoc, metadataMethod, paramOk, locsOk, segment, httpMethod
  requires gOk(g) && resourceOk(r) && locsOk(contents(path))
  apply methodsOk(bare(contents(r.methods)))
  apply methodsOk(actions(contents(r.methods)))
  modifies g.buffer.stack, allof(g.buffer.stack), allof(g.buffer.stack[0]), g.buffer.stream.doc, g.buffer.stream.after, g.buffer.stream.bad
  ensures ok: bufOk(g.buffer)
  ensures depth: len(g.buffer.stack) == old(len(g.buffer.stack))
  ensures doc: g.buffer.stream.doc == old(resourceDoc(g.buffer.stream.doc, prefix, contents(path), r))
  inv [generateMethod] bufOk(g.buffer) && len(g.buffer.stack) == atloop(len(g.buffer.stack))
  inv [MethodSegment] (i: idx, s: []*concepts.Method): contents(s) == old(bare(listof(r.methods, i)))
  inv [MethodSegment] (i: idx, s: []*concepts.Method): contents(s) == old(actions(listof(r.methods, i)))
  inv [Method] (b: bool, i: idx, s: []*concepts.Method): b <==> old(rootResource(r)) && !hasGet(listof(s, i))
  inv [generateMethod] (i: idx, s: []*concepts.Method): g.buffer.stream.doc == methodsDoc(atloop(g.buffer.stream.doc), contents(path), listof(s, i))
  inv [generateMethod] (i: idx, s: []*concepts.Method): g.buffer.stream.doc == actionsDoc(atloop(g.buffer.stream.doc), prefix, contents(path), listof(s, i))
  inv (s: []*concepts.Method): methodsOk(contents(s))

define locText(x *concepts.Locator) string =
  x.variable ? "{" + httpName(&x.annotatedSupport, x.name) + "_id}" : httpName(&x.annotatedSupport, x.name)
rec locTexts(l list) slist = l == empty ? sempty : snoc(locTexts(initof(l)), locText(lastof(l, *concepts.Locator)))
define pathOk(v *concepts.Version) bool =
  v != nil && wordsOk(v.name) && annsOk(&v.annotatedSupport) && v.owner != nil && wordsOk(v.owner.name) && annsOk(&v.owner.annotatedSupport)
define pathOf(v *concepts.Version, l list) string =
  "/api/" + strJoin(cat(snoc(snoc(sempty, httpName(&v.owner.annotatedSupport, v.owner.name)), httpName(&v.annotatedSupport, v.name)), locTexts(l)), "/")
lemma pair(a seq string) {listof(a, 2)} : listof(a, 0) == sempty && listof(a, 1) == snoc(sempty, a[0]) && listof(a, 2) == snoc(snoc(sempty, a[0]), a[1])
func "(*openapi.OpenAPIGenerator).absolutePath" (g, v, path) -> (r)
  props P18
  requires g != nil && g.binding != nil && pathOk(v) && locsOk(contents(path))
  ensures path: r == old(pathOf(v, contents(path)))
  inv (i: idx, s: []string): listof(s, i) == old(locTexts(listof(path, i)))
  inv (s: []string): contents(s) == atloop(contents(s))

rec infoDoc(d slist, v *concepts.Version) slist =
  let d1 = text(text(start(d, "info", "{"), "version", strJoin(textWords(elems(v.name.words), len(v.name.words)), "_")), "title", strJoin(textWords(elems(v.owner.name.words), len(v.owner.name.words)), "_")) ::
  let d2 = end(text(text(start(d1, "license", "{"), "name", "Apache 2.0"), "url", "http://www.apache.org/licenses/LICENSE-2.0")) ::
  end(end(text(text(start(d2, "contact", "{"), "name", "OCM Feedback"), "email", "ocm-feedback@redhat.com")))
func "(*openapi.OpenAPIGenerator).generateInfo" (g, v)
  props P18
  requires gOk(g) && v != nil && wordsOk(v.name) && v.owner != nil && wordsOk(v.owner.name)
  modifies g.buffer.stack, allof(g.buffer.stack), allof(g.buffer.stack[0]), g.buffer.stream.doc, g.buffer.stream.after, g.buffer.stream.bad
  ensures ok: bufOk(g.buffer)
  ensures depth: len(g.buffer.stack) == old(len(g.buffer.stack))
  ensures doc: g.buffer.stream.doc == infoDoc(old(g.buffer.stream.doc), v)

define serverDoc(d slist, name, url string) slist = end(text(text(snoc(d, "{"), "description", name), "url", url))
func "(*openapi.OpenAPIGenerator).generateServers" (g, v)
  props P18
  requires gOk(g)
  modifies g.buffer.stack, allof(g.buffer.stack), allof(g.buffer.stack[0]), g.buffer.stream.doc, g.buffer.stream.after, g.buffer.stream.bad
  ensures ok: bufOk(g.buffer)
  ensures depth: len(g.buffer.stack) == old(len(g.buffer.stack))
  ensures doc: g.buffer.stream.doc == snoc(serverDoc(serverDoc(start(old(g.buffer.stream.doc), "servers", "["), "Production", "https://api.openshift.com"), "Stage", "https://api.stage.openshift.com"), "]")
func "(*openapi.OpenAPIGenerator).generateSecurity" (g, v)
  props P18
  requires gOk(g)
  modifies g.buffer.stack, allof(g.buffer.stack), allof(g.buffer.stack[0]), g.buffer.stream.doc, g.buffer.stream.after, g.buffer.stream.bad
  ensures ok: bufOk(g.buffer)
  ensures depth: len(g.buffer.stack) == old(len(g.buffer.stack))
  ensures doc: g.buffer.stream.doc == snoc(end(snoc(start(snoc(start(old(g.buffer.stream.doc), "security", "["), "{"), "bearer", "["), "]")), "]")

// ---- components ----

rec schemasDoc(d slist, l list) slist = l == empty ? d : schemaDoc(schemasDoc(d, initof(l)), lastof(l, *concepts.Type))
rec componentsDoc(d slist, l list) slist =
  let d1 = end(errorSchema(schemasDoc(metadataSchema(start(start(d, "components", "{"), "schemas", "{")), l))) ::
  let d2 = end(text(text(text(start(start(d1, "securitySchemes", "{"), "bearer", "{"), "type", "http"), "scheme", "bearer"), "bearerFormat", "JWT")) ::
  end(end(d2))
// All the types of the version, each of them once, sorted by name.
define typesInOrder(s []*concepts.Type, v *concepts.Version) bool =
  len(s) == len(v.types) &&
  (forall k string {v.types[k]} :: has(v.types, k) ==> (exists i in 0..len(s) :: s[i] == v.types[k])) &&
  (forall i in 0..len(s) {s[i]} :: (exists k string :: has(v.types, k) && s[i] == v.types[k])) &&
  (forall i in 0..len(s); j in 0..len(s) {s[i], s[j]} :: i < j ==> nameCmp(s[j].name, s[i].name) != -1)
func "(*openapi.OpenAPIGenerator).generateComponents" (g, v)
  props P18
  hide schemaDoc, errorSchema, metadataSchema
  requires gOk(g) && okVersionTypes(v) && (forall k string {v.types[k]} :: has(v.types, k) ==> typeOfSchema(v.types[k]))
  modifies g.buffer.stack, allof(g.buffer.stack), allof(g.buffer.stack[0]), g.buffer.stream.doc, g.buffer.stream.after, g.buffer.stream.bad
  ensures ok: bufOk(g.buffer)
  ensures depth: len(g.buffer.stack) == old(len(g.buffer.stack))
  ensures doc: exists s []*concepts.Type {contents(s)} :: typesInOrder(s, v) && g.buffer.stream.doc == componentsDoc(old(g.buffer.stream.doc), contents(s))
  inv bufOk(g.buffer) && len(g.buffer.stack) == atloop(len(g.buffer.stack))
  inv (i: idx, s: []*concepts.Type): g.buffer.stream.doc == schemasDoc(atloop(g.buffer.stream.doc), listof(s, i))
