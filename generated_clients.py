"""Contracts of the generated clients.

What the transport receives is recorded by the contract of RoundTrip, which is the only place where a
request is sent: how many requests there are, with the verb, path, query, headers, context and body of
the last one. The contracts come from the description of the model; from the code come only the names
of the fields where the setters of the requests and the getters of the responses keep the parameters.
"""
import re

import generated_json
from generated_json import GO, token

HEAD = '''
import http "net/http"
import url "net/url"
import io "io"
import bytes "bytes"
import bufio "bufio"
import path "path"
import context "context"
import fmt "fmt"
import jsoniter "github.com/json-iterator/go"
import helpers "example.com/api/helpers"
import errors "example.com/api/errors"

transparent url.URL
transparent http.Request
transparent http.Response
transparent jsoniter.Iterator
transparent jsoniter.Stream

// What the transport has received, and what it has answered.
fun wire() *http.Server
ghost http.Server.sends int
ghost http.Server.transport http.RoundTripper
ghost http.Server.method string
ghost http.Server.path string
ghost http.Server.query string
ghost http.Server.header http.Header
ghost http.Server.body any
ghost http.Server.doc slist
ghost http.Server.context context.Context
ghost http.Server.response *http.Response
ghost http.Server.failure error
ghost http.Request.context context.Context
ghost bytes.Buffer.doc slist
ghost jsoniter.Stream.out any
ghost bufio.Reader.source any

fun readerOf(x any) any
fun startOf(x any) int
fun bodyStart(x any) int
fun emptyBody(x any) bool
fun encodedValues(query string, name string) slist
fun shownText(x any) string
fun canonical(name string) string
fun joined(a string, b string) string
fun errorOf(start int, status int) *errors.Error
fun errorFailure(start int, status int) error

define vals(m url.Values, k string) slist = m != nil && has(m, k) ? contents(m[k]) : sempty
define hvals(m http.Header, k string) slist = m != nil && has(m, k) ? contents(m[k]) : sempty
define list1(a string) slist = snoc(sempty, a)
define list2(a string, b string) slist = snoc(snoc(sempty, a), b)

extern func "(http.RoundTripper).RoundTrip" (t, req) -> (resp, err)
  modifies wire().sends, wire().transport, wire().method, wire().path, wire().query, wire().header, wire().body, wire().doc, wire().context, wire().response, wire().failure
  ensures wire().sends == old(wire().sends) + 1
  ensures wire().transport == t && wire().method == req.Method && wire().path == req.URL.Path && wire().query == req.URL.RawQuery
  ensures wire().header == req.Header && wire().body == req.Body && wire().context == req.context
  ensures wire().doc == dyn(readerOf(req.Body), *bytes.Buffer).doc
  ensures wire().response == resp && wire().failure == err
  ensures err == nil ==> resp != nil && resp.Body != nil
extern func "(*http.Request).WithContext" (r, ctx) -> (q)
  ensures fresh(q) && q.Method == r.Method && q.URL == r.URL && q.Header == r.Header && q.Body == r.Body && q.context == ctx
extern func "(url.Values).Encode" (v) -> (r)
  ensures forall k string {encodedValues(r, k)} :: encodedValues(r, k) == vals(v, k)
extern func "(url.Values).Add" (v, k, x)
  requires v != nil
  modifies v[*]
  ensures vals(v, k) == snoc(old(vals(v, k)), x)
  ensures forall q string {has(v, q)} :: q != k ==> vals(v, q) == old(vals(v, q))
extern func "(http.Header).Add" (v, k, x)
  requires v != nil
  modifies v[*]
  ensures hvals(v, canonical(k)) == snoc(old(hvals(v, canonical(k))), x)
  ensures forall q string {has(v, q)} :: q != canonical(k) ==> hvals(v, q) == old(hvals(v, q))
extern func "path.Join" (elem) -> (r)
  ensures len(elem) == 2 ==> r == joined(elem[0], elem[1])
extern func "io.NopCloser" (x) -> (r)
  ensures readerOf(r) == x && r != nil
extern func "bufio.NewReader" (x) -> (r)
  ensures fresh(r) && r.source == x && startOf(box(r)) == bodyStart(x)
extern func "(*bufio.Reader).Peek" (r, n) -> (b, err)
  ensures err == io.EOF <==> emptyBody(r.source)
extern func "(io.Closer).Close" (x) -> (err)
  ensures true
extern func "(io.ReadCloser).Close" (x) -> (err)
  ensures true
fun background() context.Context
extern func "context.Background" () -> (r)
  ensures r != nil && r == background()
extern func "helpers.NewStream" (w) -> (s)
  ensures fresh(s) && s.out == w && s.doc == dyn(w, *bytes.Buffer).doc && !s.bad && s.after == 0
extern func "(*jsoniter.Stream).Flush" (s) -> (err)
  modifies dyn(s.out, *bytes.Buffer).doc
  ensures dyn(s.out, *bytes.Buffer).doc == s.doc
extern func "helpers.NewIterator" (x) -> (it, err)
  ensures err == nil ==> fresh(it) && it.at == startOf(x)
  ensures typeis(x, *bufio.Reader) ==> err == nil
extern func "errors.UnmarshalErrorStatus" (x, status) -> (e, err)
  ensures e == errorOf(startOf(x), status) && err == errorFailure(startOf(x), status)
  ensures err == nil ==> e != nil

// Helpers:
define valueText(x any) string = typeis(x, time.Time) ? dateText(utc(dyn(x, time.Time)), "2006-01-02T15:04:05Z07:00") : shownText(x)
fun utc(t time.Time) time.Time
extern func "(time.Time).UTC" (t) -> (r)
  ensures r == utc(t)
func "helpers.AddValue" (query, name, value)
  props P15
  requires query != nil
  modifies *query, (*query)[*]
  ensures map: *query != nil && (old(*query) != nil ==> *query == old(*query)) && (old(*query) == nil ==> fresh(*query))
  ensures added: vals(*query, name) == snoc(old(vals(*query, name)), valueText(value))
  ensures others: forall k string {has(*query, k)} :: k != name ==> vals(*query, k) == old(vals(*query, k))
  nopanic
func "helpers.CopyQuery" (query) -> (r)
  props P15
  ensures copied: forall k string {has(r, k)} :: vals(r, k) == vals(query, k)
  ensures present: query != nil ==> r != nil && fresh(r)
  ensures absent: query == nil ==> r == nil
  inv forall k string {visited(k)} :: visited(k) ==> query != nil && has(query, k)
  inv forall k string {has(query, k)} :: has(query, k) == old(has(query, k)) && contents(query[k]) == old(contents(query[k]))
  inv (m: url.Values): m != nil && fresh(m) && (forall k string {has(m, k)} :: has(m, k) == visited(k) && (visited(k) ==> contents(m[k]) == contents(query[k])))
  nopanic
func "helpers.AddHeader" (header, name, value)
  props P15
  requires header != nil
  modifies *header, (*header)[*]
  ensures map: *header != nil && (old(*header) != nil ==> *header == old(*header)) && (old(*header) == nil ==> fresh(*header))
  ensures added: hvals(*header, canonical(name)) == snoc(old(hvals(*header, canonical(name))), shownText(value))
  ensures others: forall k string {has(*header, k)} :: k != canonical(name) ==> hvals(*header, k) == old(hvals(*header, k))
  nopanic
func "helpers.AddImpersonationHeader" (header, user)
  props P15
  requires header != nil
  modifies *header, (*header)[*]
  ensures map: *header != nil && (old(*header) != nil ==> *header == old(*header)) && (old(*header) == nil ==> fresh(*header))
  ensures added: hvals(*header, canonical("Impersonate-User")) == snoc(old(hvals(*header, canonical("Impersonate-User"))), shownText(box(user)))
  ensures others: forall k string {has(*header, k)} :: k != canonical("Impersonate-User") ==> hvals(*header, k) == old(hvals(*header, k))
  nopanic
func "helpers.CopyHeader" (header) -> (r)
  props P15
  ensures copied: forall k string {has(r, k)} :: hvals(r, k) == hvals(header, k)
  ensures present: r != nil && fresh(r)
  inv forall k string {visited(k)} :: visited(k) ==> header != nil && has(header, k)
  inv forall k string {has(header, k)} :: has(header, k) == old(has(header, k)) && contents(header[k]) == old(contents(header[k]))
  inv (m: http.Header): m != nil && fresh(m) && (forall k string {has(m, k)} :: has(m, k) == visited(k) && (visited(k) ==> contents(m[k]) == contents(header[k])))
  nopanic
func "helpers.CopyValues" (values) -> (r)
  props P15
  ensures copied: contents(r) == contents(values)
  ensures fresh: values != nil ==> fresh(r)
  nopanic
func "helpers.evalStatus" (expected, actual) -> (r)
  props P15
  ensures found: r <==> (exists i in 0..len(expected) :: expected[i] == actual)
  inv (i: idx): forall j in 0..i {expected[j]} :: expected[j] != actual
  nopanic
'''


def setter_field(fns, typ, go):
    """Field of the request where the setter puts the parameter."""
    r, text = fns.get((typ, go), ("", ""))
    m = re.search(r"\b%s\.(\w+) = &?value\b" % r, text) if text else None
    return m.group(1) if m else None


def getter_field(fns, typ, go):
    """Field of the response that the getter returns."""
    r, text = fns.get((typ, go), ("", ""))
    m = re.search(r"return \*?%s\.(\w+)\b" % r, text) if text else None
    return m.group(1) if m else None


def quote(s):
    return '"' + s.replace("\\", "\\\\").replace('"', '\\"') + '"'


SCALARS = ("boolean", "integer", "long", "float", "string", "date", "enum")


def contracts(code, v, pkg, usable):
    """Contracts of the clients of the version; usable are the types whose documents are under contract."""
    from generated import functions
    import os
    P = pkg
    fns = functions(os.path.join(code, v["Service"], v["Go"]))
    types = {t["Name"]: t for t in v["Types"]}
    resources = {r["Name"]: r for r in v["Resources"]}
    out, skipped = [], []

    def goType(ref):
        k = ref["Kind"]
        if k in GO:
            return GO[k]
        if k == "enum":
            return "%s.%s" % (P, types[ref["Name"]]["Go"])
        if k in ("class", "struct"):
            return "*%s.%s" % (P, types[ref["Name"]]["Go"])
        if k == "interface":
            return "any"
        return None

    def func(name, params, results, lines, head="func"):
        out.append('%s "%s" (%s)%s\n  %s\n' % (head, name, ", ".join(params), " -> (%s)" % ", ".join(results) if results else "",
                                             "\n  ".join((["props P15"] if head == "func" else []) + lines)))

    def client(res):
        return "Client" if res["Root"] else res["Go"] + "Client"

    # The client of the service and those of the resources:
    func("%s.NewClient" % v["Service"], ["transport", "path"], ["r"], ["ensures client: fresh(r) && r.transport == transport && r.path == path", "nopanic"])
    func("(*%s.Client).%s" % (v["Service"], v["Method"]), ["c"], ["r"], ["requires c != nil",
         "ensures client: fresh(r) && r.transport == c.transport && r.path == joined(c.path, %s)" % quote(v["Segment"]), "nopanic"])
    for res in v["Resources"]:
        C = client(res)
        func("%s.New%s" % (P, C), ["transport", "path"], ["r"], ["ensures client: fresh(r) && r.transport == transport && r.path == path", "nopanic"])
        for l in res["Locators"] or []:
            seg = "id" if l["Variable"] else quote(l["Segment"])
            func("(*%s.%s).%s" % (P, C, l["Go"]), ["c"] + (["id"] if l["Variable"] else []), ["r"], ["requires c != nil",
                 "ensures client: fresh(r) && r.transport == c.transport && r.path == joined(c.path, %s)" % seg, "nopanic"])
        for m in res["Methods"] or []:
            method(P, res, C, m, fns, types, func, out, skipped, goType, usable)
    return "\n".join(out) + "\n", skipped


def method(P, res, C, m, fns, types, func, out, skipped, goType, usable):
    name = ("" if res["Root"] else res["Go"]) + m["Go"]
    Q, R = name + "Request", name + "Response"
    rq, rs = "(*%s.%s)." % (P, Q), "(*%s.%s)." % (P, R)
    params = m["Params"] or []
    fields, outs = {}, {}
    for p in params:
        if p["In"]:
            fields[p["Go"]] = setter_field(fns, Q, p["Go"])
        if p["Out"]:
            outs[p["Go"]] = getter_field(fns, R, p["Go"])
    if None in list(fields.values()) + list(outs.values()):
        skipped.append(name)
        return

    # Creation of the request:
    target = 'joined(c.path, %s)' % quote(m["Segment"]) if m["Action"] else "c.path"
    unset = "".join(" && r.%s == nil" % f for f in fields.values())
    func("(*%s.%s).%s" % (P, C, m["Go"]), ["c"], ["r"], ["requires c != nil",
         "ensures request: fresh(r) && r.transport == c.transport && r.path == %s" % target,
         "ensures unset: r.query == nil && r.header == nil%s" % unset, "nopanic"])

    # Additional parameters and headers:
    func(rq + "Parameter", ["r", "name", "value"], ["q"], ["requires r != nil", "modifies r.query, r.query[*]", "ensures same: q == r",
         "ensures added: vals(r.query, name) == snoc(old(vals(r.query, name)), valueText(value))",
         "ensures others: forall k string {has(r.query, k)} :: k != name ==> vals(r.query, k) == old(vals(r.query, k))", "nopanic"])
    func(rq + "Header", ["r", "name", "value"], ["q"], ["requires r != nil", "modifies r.header, r.header[*]", "ensures same: q == r",
         "ensures added: hvals(r.header, canonical(name)) == snoc(old(hvals(r.header, canonical(name))), shownText(value))",
         "ensures others: forall k string {has(r.header, k)} :: k != canonical(name) ==> hvals(r.header, k) == old(hvals(r.header, k))", "nopanic"])
    func(rq + "Impersonate", ["r", "user"], ["q"], ["requires r != nil", "modifies r.header, r.header[*]", "ensures same: q == r",
         'ensures added: hvals(r.header, canonical("Impersonate-User")) == snoc(old(hvals(r.header, canonical("Impersonate-User"))), shownText(box(user)))',
         'ensures others: forall k string {has(r.header, k)} :: k != canonical("Impersonate-User") ==> hvals(r.header, k) == old(hvals(r.header, k))', "nopanic"])

    # Setters:
    for p in params:
        if not p["In"]:
            continue
        f = fields[p["Go"]]
        kept = "r.%s == value" % f
        if p["Ref"]["Kind"] in SCALARS:
            kept = "r.%s != nil && *r.%s == value" % (f, f)
        elif p["Ref"]["Kind"] == "interface":
            kept = "r.%s != nil" % f
        func(rq + p["Go"], ["r", "value"], ["q"], ["requires r != nil", "modifies r.%s" % f, "ensures same: q == r", "ensures kept: " + kept, "nopanic"])

    # Getters of the response:
    zero = {"boolean": "!v", "string": 'v == ""', "enum": 'v == ""', "date": None}
    func(rs + "Status", ["r"], ["v"], ["ensures status: v == (r == nil ? 0 : r.status)", "nopanic"])
    func(rs + "Header", ["r"], ["v"], ["ensures header: (r == nil ==> v == nil) && (r != nil ==> v == r.header)", "nopanic"])
    func(rs + "Error", ["r"], ["v"], ["ensures error: (r == nil ==> v == nil) && (r != nil ==> v == r.err)", "nopanic"])
    for p in params:
        if not p["Out"]:
            continue
        f, k = outs[p["Go"]], p["Ref"]["Kind"]
        x = "*r.%s" % f if k in SCALARS else "r.%s" % f
        z = None if k == "float" else zero.get(k, "v == 0" if k in SCALARS else "v == nil")
        func(rs + p["Go"], ["r"], ["v"], ["ensures value: r != nil && r.%s != nil ==> v == %s" % (f, x)] +
             (["ensures zero: r == nil || r.%s == nil ==> %s" % (f, z)] if z else []) + ["nopanic"])
        func(rs + "Get" + p["Go"], ["r"], ["v", "ok"], ["ensures flag: ok <==> r != nil && r.%s != nil" % f, "ensures value: ok ==> v == %s" % x] +
             (["ensures zero: !ok ==> %s" % z] if z else []) + ["nopanic"])

    # Body of the request:
    ins = [p for p in params if p["In"]]
    main = [p for p in ins if not m["Action"] and (p["Name"] in ("body", "request"))]
    body, need = None, "true"

    def doc(ref, x):
        k = ref["Kind"]
        if k in ("class", "struct"):
            return "doc%s(%s, %%s)" % (types[ref["Name"]]["Go"], x) if ref["Name"] in usable else None
        if k == "list":
            e = ref["Elem"]
            if e["Kind"] in ("class", "struct") and e["Name"] not in usable:
                return None
            n = generated_json.NAMES.get(e["Kind"]) or types[e["Name"]]["Go"]
            return 'snoc(items%s(elems(%s), len(%s), snoc(%%s, "[")), "]")' % (n, x, x)
        if k == "map":
            return None
        return "snoc(%%s, %s)" % token(k, x if k == "interface" else "*" + x)

    def okay(ref, x):
        k = ref["Kind"]
        if k in ("class", "struct"):
            return "(%s != nil ==> ok%s(%s))" % (x, types[ref["Name"]]["Go"], x)
        if k == "list" and ref["Elem"]["Kind"] in ("class", "struct"):
            return "(forall i in 0..len(%s) {%s[i]} :: ok%s(%s[i]))" % (x, x, types[ref["Elem"]["Name"]]["Go"], x)
        return None

    sent = m["Action"] and bool(ins) or bool(main)
    if main:
        f = fields[main[0]["Go"]]
        d = doc(main[0]["Ref"], "r." + f)
        if d:
            body, need = d, "r.%s != nil && %s" % (f, okay(main[0]["Ref"], "r." + f))
    elif m["Action"] and ins:
        parts = [(p, fields[p["Go"]], doc(p["Ref"], "r." + fields[p["Go"]])) for p in sorted(ins, key=lambda p: p["Name"].split("_"))]
        need = " && ".join(filter(None, (okay(p["Ref"], "r." + f) for p, f, _ in parts))) or "true"
        if all(d for _, _, d in parts):
            out.append('rec payload%s_0(r *%s.%s, d slist) slist = snoc(d, "{")' % (name, P, Q))
            n = 0
            for p, f, d in parts:
                prev = "payload%s_%d(r, d)" % (name, n)
                n += 1
                out.append("rec payload%s_%d(r *%s.%s, d slist) slist = r.%s != nil ? %s : %s" % (
                    name, n, P, Q, f, d % ("snoc(%s, keyTok(%s))" % (prev, quote(p["Body"]))), prev))
            out.append('rec payload%s(r *%s.%s, d slist) slist = snoc(payload%s_%d(r, d), "}")' % (name, P, Q, name, n))
            body = "payload%s(r, %%s)" % name
    maps = [p for p in ins if p["Ref"]["Kind"] == "map"]
    if sent and maps:
        # the loops that write maps aren't under contract
        skipped.append("write" + Q)
        func("%s.write%s" % (P, Q), ["r", "w"], ["err"], ["modifies dyn(w, *bytes.Buffer).doc", "ensures true"], "extern func")
    elif sent:
        func("%s.write%s" % (P, Q), ["r", "w"], ["err"], ["requires r != nil && w != nil && typeis(w, *bytes.Buffer) && dyn(w, *bytes.Buffer) != nil", "requires " + need,
             "modifies dyn(w, *bytes.Buffer).doc",
             "ensures payload: err == nil ==> dyn(w, *bytes.Buffer).doc == %s" % (body % "old(dyn(w, *bytes.Buffer).doc)") if body else "ensures true", "nopanic"])

    # Content of the response:
    received = [p for p in params if p["Out"]]
    whole = [p for p in received if not m["Action"] and p["Name"] in ("body", "response")]
    clauses = []
    at0 = "bodyStart(wire().response.Body)"
    if whole:
        p = whole[0]
        f, k = outs[p["Go"]], p["Ref"]["Kind"]
        if k in ("class", "struct") and p["Ref"]["Name"] in usable:
            clauses.append((f, lambda x, s, n, f=f, g=types[p["Ref"]["Name"]]["Go"]: "read%s(%s.%s, %s)" % (g, x, f, s)))
    elif all(readable(p["Ref"], usable) for p in received):
        for p in received:
            clauses.append((outs[p["Go"]], reader(p, outs[p["Go"]], types, usable)))
    plain = [outs[p["Go"]] for p in received if p["Ref"]["Kind"] == "interface"]
    if received:
        zeros = "".join(" && x.%s == nil" % f for f in outs.values())
        lines = ["requires x != nil && typeis(in, *bufio.Reader)%s" % zeros, "modifies " + ", ".join("x.%s" % f for f in outs.values())]
        for f, c in clauses:
            lines.append("ensures %s: %s" % (f, c("x", "startOf(in)", "fieldCount(startOf(in))")))
        if not whole:
            lines.append('inv (it: *jsoniter.Iterator): fresh(it) && it.at == posAt(startOf(in), iter()) && (forall j in 0..iter() {posAt(startOf(in), j)} :: fieldAt(posAt(startOf(in), j)) != "")')
            for f, c in clauses:
                lines.append("inv " + c("x", "startOf(in)", "iter()"))
                if f not in plain:
                    lines.append("inv x.%s != nil ==> fresh(x.%s)" % (f, f))
        func("%s.read%s" % (P, R), ["x", "in"], ["err"], lines + ["nopanic"])

    # Sending:
    lines = ["requires r != nil && r.transport != nil", "requires " + need,
             "modifies wire().sends, wire().transport, wire().method, wire().path, wire().query, wire().header, wire().body, wire().doc, wire().context, wire().response, wire().failure"]
    once = "wire().sends == old(wire().sends) + 1"
    if sent:
        lines.append("ensures once: %s || (wire().sends == old(wire().sends) && err != nil && x == nil)" % once)
    else:
        lines.append("ensures once: " + once)
    was = once + " ==> "
    lines.append("ensures transport: %swire().transport == r.transport" % was)
    lines.append("ensures verb: %swire().method == %s" % (was, quote(m["HTTP"])))
    lines.append("ensures path: %swire().path == r.path" % was)
    lines.append("ensures context: %sctx != nil ==> wire().context == ctx" % was)
    lines.append("ensures header: %s(forall k string {hvals(r.header, k)} :: hvals(wire().header, k) == hvals(r.header, k))" % was)
    query = [p for p in ins if not m["Action"] and p["Ref"]["Kind"] in SCALARS]
    for p in query:
        f, q = fields[p["Go"]], quote(p["Query"])
        base = "old(vals(r.query, %s))" % q
        lines.append("ensures query_%s: %sencodedValues(wire().query, %s) == (r.%s != nil ? snoc(%s, valueText(box(*r.%s))) : %s)" % (f, was, q, f, base, f, base))
    others = "".join(" && k != %s" % quote(p["Query"]) for p in query)
    lines.append("ensures query: %s(forall k string {encodedValues(wire().query, k)} :: true%s ==> encodedValues(wire().query, k) == old(vals(r.query, k)))" % (was, others))
    if sent:
        lines.append("ensures payload: %swire().body != nil" % was + (" && wire().doc == %s" % (body % "sempty") if body else ""))
    else:
        lines.append("ensures payload: %swire().body == nil" % was)
    lines.append("ensures failure: %swire().failure != nil ==> err == wire().failure && x == nil" % was)
    good = was + "wire().failure == nil ==> "
    lines.append("ensures response: %sx != nil && fresh(x) && x.status == wire().response.StatusCode && x.header == wire().response.Header" % good)
    lines.append("ensures empty: %semptyBody(wire().response.Body) ==> err == nil && x.err == nil%s" % (good, "".join(" && x.%s == nil" % f for f in outs.values())))
    full = good + "!emptyBody(wire().response.Body) ==> "
    bad = "x.status >= 400"
    start = at0 + ", wire().response.StatusCode"
    lines.append("ensures error: %s%s ==> x.err == errorOf(%s) && err != nil && (errorFailure(%s) != nil ==> err == errorFailure(%s)) && (errorFailure(%s) == nil ==> err == x.err)%s" % (
        full, bad, start, start, start, start, "".join(" && x.%s == nil" % f for f in outs.values())))
    for f, c in clauses:
        lines.append("ensures content_%s: %sx.status < 400 ==> x.err == nil && %s" % (f, full, c("x", at0, "fieldCount(%s)" % at0)))
    func(rq + "SendContext", ["r", "ctx"], ["x", "err"], lines + ["nopanic"])
    func(rq + "Send", ["r"], ["x", "err"], [re.sub(r"ctx != nil ==> wire\(\).context == ctx", "wire().context == background()", l) for l in lines] + ["nopanic"])

    # Polling:
    if m["Go"] == "Get" and not m["Action"]:
        polling(P, res, C, name, outs, received, query, lines, func)


def polling(P, res, C, name, outs, received, query, lines, func):
    """Contracts of the requests that repeat the get method of the resource."""
    L = ("" if res["Root"] else res["Go"]) + "Poll"
    rq, rs = "(*%s.%sRequest)." % (P, L), "(*%s.%sResponse)." % (P, L)
    func("(*%s.%s).Poll" % (P, C), ["c"], ["r"], ["requires c != nil",
         "ensures request: fresh(r) && fresh(r.request) && r.request.transport == c.transport && r.request.path == c.path",
         "ensures unset: r.request.query == nil && r.request.header == nil && r.interval == 0 && len(r.statuses) == 0 && len(r.predicates) == 0", "nopanic"])
    func(rq + "Parameter", ["r", "name", "value"], ["q"], ["requires r != nil && r.request != nil", "modifies r.request.query, r.request.query[*]", "ensures same: q == r",
         "ensures added: vals(r.request.query, name) == snoc(old(vals(r.request.query, name)), valueText(value))",
         "ensures others: forall k string {has(r.request.query, k)} :: k != name ==> vals(r.request.query, k) == old(vals(r.request.query, k))", "nopanic"])
    func(rq + "Header", ["r", "name", "value"], ["q"], ["requires r != nil && r.request != nil", "modifies r.request.header, r.request.header[*]", "ensures same: q == r",
         "ensures added: hvals(r.request.header, canonical(name)) == snoc(old(hvals(r.request.header, canonical(name))), shownText(value))",
         "ensures others: forall k string {has(r.request.header, k)} :: k != canonical(name) ==> hvals(r.request.header, k) == old(hvals(r.request.header, k))", "nopanic"])
    func(rq + "Interval", ["r", "value"], ["q"], ["requires r != nil", "modifies r.interval", "ensures kept: q == r && r.interval == value", "nopanic"])
    func(rq + "Status", ["r", "value"], ["q"], ["requires r != nil", "modifies r.statuses, r.statuses[*]", "ensures kept: q == r && len(r.statuses) == old(len(r.statuses)) + 1 && r.statuses[len(r.statuses) - 1] == value",
         "ensures others: forall i in 0..len(r.statuses) - 1 {r.statuses[i]} :: r.statuses[i] == old(r.statuses[i])", "nopanic"])
    func(rq + "task", ["r", "ctx"], ["status", "result", "err"],
         [re.sub(r"\br\.", "r.request.", l).replace("requires ", "requires r != nil && ", 1).replace("r != nil && r.request.transport", "r != nil && r.request != nil && r.request.transport").replace("r.request != nil && r.request.transport", "r.request != nil && r.request.transport")
          for l in lines if l.startswith(("requires", "modifies", "ensures once", "ensures transport", "ensures verb", "ensures path", "ensures context", "ensures header", "ensures query"))] +
         ["ensures failure: wire().failure != nil ==> err == wire().failure && result == nil && status == 0",
          "ensures response: wire().failure == nil ==> typeis(result, *%s.%sResponse) && dyn(result, *%s.%sResponse) != nil && status == wire().response.StatusCode && dyn(result, *%s.%sResponse).status == status" % ((P, name) * 3),
          "nopanic"])
    func(rs + "Status", ["r"], ["v"], ["requires r != nil ==> r.response != nil", "ensures status: v == (r == nil ? 0 : r.response.status)", "nopanic"])
    func(rs + "Header", ["r"], ["v"], ["ensures header: (r == nil || r.response == nil ==> v == nil) && (r != nil && r.response != nil ==> v == r.response.header)", "nopanic"])
    func(rs + "Error", ["r"], ["v"], ["ensures error: (r == nil || r.response == nil ==> v == nil) && (r != nil && r.response != nil ==> v == r.response.err)", "nopanic"])


def readable(ref, usable):
    """Tells if what reads the value is under contract."""
    k = ref["Kind"]
    if k == "list":
        return ref["Elem"]["Kind"] in SCALARS or ref["Elem"].get("Name") in usable
    return k in SCALARS or k == "interface" or ref.get("Name") in usable


def reader(p, f, types, usable):
    """Clause for an output parameter read from the fields of an object."""
    ref = p["Ref"]
    k = ref["Kind"]
    j = quote(p["Body"])

    def clause(x, start, n):
        last = "lastField(%s, %s, %s)" % (start, n, j)
        at = "step(posAt(%s, %s))" % (start, last)
        v = "%s.%s" % (x, f)
        if k in SCALARS:
            c = "%s != nil && *%s == %s" % (v, v, generated_json.read(k, at))
        elif k in ("class", "struct") and ref["Name"] in usable:
            c = "%s != nil && read%s(%s, %s)" % (v, types[ref["Name"]]["Go"], v, at)
        elif k == "list":
            e = ref["Elem"]
            name = generated_json.NAMES.get(e["Kind"]) or types[e["Name"]]["Go"]
            if e["Kind"] in ("class", "struct") and e["Name"] not in usable:
                c = "true"
            elif p["Main"]:
                c = "%s != nil && readItems%s(%s.items, %s)" % (v, name, v, at)
            else:
                c = "readItems%s(%s, %s)" % (name, v, at)
        else:
            c = "true"
        return "(%s < 0 ==> %s == nil) && (%s >= 0 ==> %s)" % (last, v, last, c)

    return clause
