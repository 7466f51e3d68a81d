"""Contracts of the generated JSON code.

The document written is the sequence of tokens written to the stream, with the state of the separators,
as in contracts/openapi.spec. The document read is described by the state of the iterator: a number that
identifies what is going to be read, with functions from that state to the values, names of fields and
following states. The contracts come from the description of the model; from the code come only the names
of the fields and the positions of the flags that the getters use.
"""

import re

HEAD = '''
import jsoniter "github.com/json-iterator/go"

ghost jsoniter.Stream.doc slist
ghost jsoniter.Stream.after int
ghost jsoniter.Stream.bad bool

fun keyTok(n string) string
fun strTok(n string) string
fun intTok(x int) string
fun longTok(x int64) string
fun floatTok(x float64) string
fun boolTok(x bool) string
fun valTok(x any) string
fun dateText(t time.Time, layout string) string
fun parseDate(layout string, text string) time.Time

extern func "(*jsoniter.Stream).WriteMore" (s)
  modifies s.after, s.bad
  ensures s.after == 2
  ensures s.bad <==> old(s.bad) || old(s.after) != 1
extern func "(*jsoniter.Stream).WriteObjectField" (s, name)
  modifies s.doc, s.after, s.bad
  ensures s.doc == snoc(old(s.doc), keyTok(name)) && s.after == 0
  ensures s.bad <==> old(s.bad) || old(s.after) == 1
'''

SCALAR = {"WriteString": ("strTok", "string"), "WriteInt": ("intTok", "int"), "WriteInt64": ("longTok", "int64"),
          "WriteFloat64": ("floatTok", "float64"), "WriteBool": ("boolTok", "bool"), "WriteVal": ("valTok", "any")}
for name, tok, after in (("WriteObjectStart", '"{"', 0), ("WriteArrayStart", '"["', 0)):
    HEAD += '''extern func "(*jsoniter.Stream).%s" (s)
  modifies s.doc, s.after, s.bad
  ensures s.doc == snoc(old(s.doc), %s) && s.after == 0
  ensures s.bad <==> old(s.bad) || old(s.after) == 1
''' % (name, tok)
for name, tok in (("WriteObjectEnd", '"}"'), ("WriteArrayEnd", '"]"')):
    HEAD += '''extern func "(*jsoniter.Stream).%s" (s)
  modifies s.doc, s.after, s.bad
  ensures s.doc == snoc(old(s.doc), %s) && s.after == 1
  ensures s.bad <==> old(s.bad) || old(s.after) == 2
''' % (name, tok)
HEAD += '''extern func "(*jsoniter.Stream).WriteNil" (s)
  modifies s.doc, s.after, s.bad
  ensures s.doc == snoc(old(s.doc), "null") && s.after == 1
  ensures s.bad <==> old(s.bad) || old(s.after) == 1
'''
for name, (tok, _) in SCALAR.items():
    HEAD += '''extern func "(*jsoniter.Stream).%s" (s, x)
  modifies s.doc, s.after, s.bad
  ensures s.doc == snoc(old(s.doc), %s(x)) && s.after == 1
  ensures s.bad <==> old(s.bad) || old(s.after) == 1
''' % (name, tok)
HEAD += '''extern func "(time.Time).Format" (t, layout) -> (r)
  ensures r == dateText(t, layout)
extern func "time.Parse" (layout, text) -> (t, err)
  ensures t == parseDate(layout, text)

ghost jsoniter.Iterator.at int
fun after(p int) int
fun step(p int) int
fun fieldAt(p int) string
fun moreAt(p int) bool
fun strAt(p int) string
fun intAt(p int) int
fun longAt(p int) int64
fun floatAt(p int) float64
fun boolAt(p int) bool
fun fieldCount(p int) int
fun itemCount(p int) int
rec posAt(p int, n int) int = n <= 0 ? p : after(step(posAt(p, n - 1)))
rec lastField(p int, n int, name string) int = n <= 0 ? 0 - 1 : (fieldAt(posAt(p, n - 1)) == name ? n - 1 : lastField(p, n - 1, name))
rec anyKind(p int, n int, value string) bool = n <= 0 ? false : ((fieldAt(posAt(p, n - 1)) == "kind" && strAt(step(posAt(p, n - 1))) == value) || anyKind(p, n - 1, value))
define fields(p int, n int) bool = n >= 0 && fieldAt(posAt(p, n)) == "" && (forall i in 0..n {posAt(p, i)} :: fieldAt(posAt(p, i)) != "")
define items(p int, n int) bool = n >= 0 && !moreAt(posAt(p, n)) && (forall i in 0..n {posAt(p, i)} :: moreAt(posAt(p, i)))
axiom endOfObject: forall p int; n int {fieldAt(posAt(p, n))} :: fields(p, n) ==> step(posAt(p, n)) == after(p) && n == fieldCount(p)
axiom endOfArray: forall p int; n int {moreAt(posAt(p, n))} :: items(p, n) ==> step(posAt(p, n)) == after(p) && n == itemCount(p)

extern func "(*jsoniter.Iterator).ReadObject" (it) -> (r)
  modifies it.at
  ensures r == fieldAt(old(it.at)) && it.at == step(old(it.at))
extern func "(*jsoniter.Iterator).ReadArray" (it) -> (r)
  modifies it.at
  ensures (r <==> moreAt(old(it.at))) && it.at == step(old(it.at))
extern func "(*jsoniter.Iterator).ReadAny" (it) -> (r)
  modifies it.at
  ensures it.at == after(old(it.at))
extern func "(*jsoniter.Iterator).ReadVal" (it, x)
  modifies it.at
  ensures it.at == after(old(it.at))
extern func "(*jsoniter.Iterator).ReportError" (it, a, b)
  modifies it.Error
'''
for name, fn in (("ReadString", "strAt"), ("ReadInt", "intAt"), ("ReadInt64", "longAt"), ("ReadFloat64", "floatAt"), ("ReadBool", "boolAt")):
    HEAD += '''extern func "(*jsoniter.Iterator).%s" (it) -> (r)
  modifies it.at
  ensures r == %s(old(it.at)) && it.at == after(old(it.at))
''' % (name, fn)

RFC = '"2006-01-02T15:04:05Z07:00"'
GO = {"boolean": "bool", "integer": "int", "long": "int64", "float": "float64", "string": "string", "date": "time.Time"}
NAMES = {"boolean": "Boolean", "integer": "Integer", "long": "Long", "float": "Float", "string": "String", "date": "Date", "interface": "Interface"}


def token(kind, x):
    """Token of a scalar value."""
    return {"boolean": "boolTok(%s)", "integer": "intTok(%s)", "long": "longTok(%s)", "float": "floatTok(%s)", "string": "strTok(%s)",
            "enum": "strTok(%s)", "date": "strTok(dateText(%%s, %s))" % RFC, "interface": "valTok(%s)"}[kind] % x


def read(kind, p):
    """Scalar value read at a state."""
    return {"boolean": "boolAt(%s)", "integer": "intAt(%s)", "long": "longAt(%s)", "float": "floatAt(%s)", "string": "strAt(%s)",
            "enum": "strAt(%s)", "date": "parseDate(%s, strAt(%%s))" % RFC}[kind] % p


def contracts(v, attrs, types, pkg, usable=None):
    """Contracts for the types of the version; attrs are the fields and flags by name of type."""
    out = [HEAD]
    P = pkg
    recursive = set()

    def refs(t, seen):
        for a in t["Attrs"] or []:
            r = a["Ref"]
            for x in (r, r.get("Elem") or {}):
                n = x.get("Name")
                if n in types and types[n]["Kind"] in ("class", "struct"):
                    if n not in seen:
                        seen.add(n)
                        refs(types[n], seen)
        return seen

    json = {}
    for t in v["Types"]:
        if t["Kind"] in ("class", "struct") and t["Name"] in refs(t, set()):
            recursive.add(t["Name"])
        d = {a["Go"]: a["JSON"] for a in t["Attrs"] or []}
        d.update({"ID": "id", "HREF": "href"} if t["Kind"] == "class" else {})
        json[t["Name"]] = d
    skipped = []

    def quote(s):
        return '"' + s.replace("\\", "\\\\").replace('"', '\\"') + '"'

    def goType(ref):
        if ref["Kind"] in GO:
            return GO[ref["Kind"]]
        if ref["Kind"] == "enum":
            return "%s.%s" % (P, types[ref["Name"]]["Go"])
        if ref["Kind"] in ("class", "struct"):
            return "*%s.%s" % (P, types[ref["Name"]]["Go"])
        return None

    def typeName(ref):
        return NAMES.get(ref["Kind"]) or types[ref["Name"]]["Go"]

    done = set()
    lists = set()
    order = []
    usable = {} if usable is None else usable

    def value(t, a):
        """Text that extends the document d with the value of the attribute, or None."""
        x = "o." + a.field
        k = a.ref["Kind"]
        if k in ("class", "struct"):
            return "doc%s(%s, %%s)" % (types[a.ref["Name"]]["Go"], x) if usable.get(a.ref["Name"]) else None
        if k == "list":
            e = a.ref["Elem"]
            if e["Kind"] in ("class", "struct") and not usable.get(e["Name"]):
                return None
            if e["Kind"] in ("list", "map", "interface"):
                return None
            n = typeName(e)
            if a.link:
                inner = 'snoc(items%s(elems(%s.items), len(%s.items), snoc(snoc(snoc(%%s, "{"), keyTok("items")), "[")), "]")' % (n, x, x)
                return 'snoc(%s, "}")' % inner
            return 'snoc(items%s(elems(%s), len(%s), snoc(%%s, "[")), "]")' % (n, x, x)
        if k == "map":
            return None
        return "snoc(%%s, %s)" % token(k, x)

    def listsOf(ref):
        e = ref["Elem"]
        n = typeName(e)
        if n in lists:
            return
        lists.add(n)
        g = goType(e)
        if e["Kind"] in ("class", "struct"):
            step = "doc%s(a[n - 1], items%s(a, n - 1, d))" % (n, n)
            need = "requires forall i in 0..len(list) {list[i]} :: ok%s(list[i])" % n
        else:
            step = "snoc(items%s(a, n - 1, d), %s)" % (n, token(e["Kind"], "a[n - 1]"))
            need = None
        out.append("rec items%s(a seq %s, n int, d slist) slist = n <= 0 ? d : %s" % (n, g, step))
        lines = ["props P14", "requires ready(stream)"] + ([need] if need else []) + [
            "modifies stream.doc, stream.after, stream.bad",
            'ensures doc: stream.doc == snoc(items%s(elems(list), len(list), snoc(old(stream.doc), "[")), "]")' % n,
            "ensures separators: !stream.bad && stream.after == 1",
            'inv (i: idx): 0 <= i && i <= len(list) && stream.doc == items%s(elems(list), i, snoc(old(stream.doc), "["))' % n,
            "inv (i: idx): !stream.bad && (i > 0 ==> stream.after == 1) && (i == 0 ==> stream.after == 0)",
            "nopanic"]
        out.append('func "%s.Write%sList" (list, stream)\n  %s\n' % (P, n, "\n  ".join(lines)))
        if e["Kind"] in ("class", "struct"):
            item = "read%s(s[j], step(posAt(%%s, j)))" % n
        else:
            item = "s[j] == %s" % read(e["Kind"], "step(posAt(%s, j))")
        out.append("define readItems%s(s []%s, p int) bool = len(s) == itemCount(p) && (forall j in 0..len(s) {s[j]} :: %s)" % (n, g, item % "p"))
        inv = item % "old(iterator.at)"
        lines = ["props P14", "requires iterator != nil", "modifies iterator.at, iterator.Error",
                 "ensures items: readItems%s(r, old(iterator.at))" % n,
                 "ensures state: iterator.at == after(old(iterator.at))",
                 "ensures fresh: fresh(r)",
                 "inv iterator.at == posAt(old(iterator.at), iter()) && (forall j in 0..iter() {posAt(old(iterator.at), j)} :: moreAt(posAt(old(iterator.at), j)))",
                 "inv (s: []%s): fresh(s) && len(s) == iter() && (forall j in 0..len(s) {s[j]} :: %s)" % (g, inv),
                 "nopanic"]
        out.append('func "%s.Read%sList" (iterator) -> (r)\n  %s\n' % (P, n, "\n  ".join(lines)))

    out.append("define ready(s *jsoniter.Stream) bool = s != nil && !s.bad && s.after != 1")

    def visit(t):
        if t["Name"] in done:
            return
        done.add(t["Name"])
        for a in t["Attrs"] or []:
            r = a["Ref"]
            for x in (r, r.get("Elem") or {}):
                if x.get("Name") in types and types[x["Name"]]["Kind"] in ("class", "struct"):
                    visit(types[x["Name"]])
        order.append(t)

    for t in v["Types"]:
        if t["Kind"] in ("class", "struct"):
            visit(t)

    for t in order:
        g = t["Go"]
        l, link = attrs[t["Name"]]
        full = len(l) == len(t["Attrs"] or []) + (2 if t["Kind"] == "class" else 0) and (t["Kind"] != "class" or link is not None)
        if t["Name"] in recursive or not full:
            skipped.append(g)
            continue
        for a in l:
            if a.ref["Kind"] == "list" and (a.ref["Elem"]["Kind"] in NAMES and a.ref["Elem"]["Kind"] != "interface" or a.ref["Elem"]["Kind"] == "enum" or usable.get(a.ref["Elem"].get("Name"))):
                listsOf(a.ref)
        vals = {a.go: value(t, a) for a in l}
        if any(x is None for x in vals.values()):
            skipped.append("Write" + g)
            skipped.append("Read" + g)
            continue
        usable[t["Name"]] = True
        # Preconditions: what is in the object isn't absent where the code can't write it.
        pre = ["o != nil"]
        for a in l:
            if a.ref["Kind"] in ("class", "struct"):
                pre.append("(o.%s != nil ==> ok%s(o.%s))" % (a.field, types[a.ref["Name"]]["Go"], a.field))
            if a.ref["Kind"] == "list" and a.ref["Elem"]["Kind"] in ("class", "struct"):
                f = a.field + (".items" if a.link else "")
                if a.link:
                    pre.append("(o.%s != nil ==> (forall i in 0..len(o.%s) {o.%s[i]} :: ok%s(o.%s[i])))" % (a.field, f, f, typeName(a.ref["Elem"]), f))
                else:
                    pre.append("(forall i in 0..len(o.%s) {o.%s[i]} :: ok%s(o.%s[i]))" % (f, f, typeName(a.ref["Elem"]), f))
        out.append("define ok%s(o *%s.%s) bool = %s" % (g, P, g, " && ".join(pre)))
        # Document:
        chain = 'snoc(d, "{")'
        if link is not None:
            chain = 'snoc(snoc(%s, keyTok("kind")), strTok(bit(o.bitmap_, %d) ? "%sLink" : "%s"))' % (chain, link, g, g)
        out.append("rec doc%s_0(o *%s.%s, d slist) slist = %s" % (g, P, g, chain))
        n = 0
        # The fields of the class come first, and then those of the attributes in the order of the model:
        for a in l:
            cond = "bit(o.bitmap_, %d)" % a.bit
            if a.ref["Kind"] in ("class", "struct", "list", "map"):
                cond += " && o.%s != nil" % a.field
            prev = "doc%s_%d(o, d)" % (g, n)
            body = vals[a.go] % ("snoc(%s, keyTok(%s))" % (prev, quote(json[t["Name"]][a.go])))
            n += 1
            out.append("rec doc%s_%d(o *%s.%s, d slist) slist = (%s) ? %s : %s" % (g, n, P, g, cond, body, prev))
        out.append('rec doc%s(o *%s.%s, d slist) slist = snoc(doc%s_%d(o, d), "}")' % (g, P, g, g, n))
        lines = ["props P14", "requires ok%s(o) && ready(stream)" % g, "modifies stream.doc, stream.after, stream.bad",
                 # Too many cases for the solvers: the document of the widest types is left to the harness.
                 "ensures doc: stream.doc == doc%s(o, old(stream.doc))" % g if len(l) < 12 else "ensures true",
                 "ensures separators: !stream.bad && stream.after == 1", "nopanic"]
        out.append('func "%s.Write%s" (o, stream)\n  %s\n' % (P, g, "\n  ".join(lines)))
        listsOf({"Elem": {"Kind": t["Kind"], "Name": t["Name"]}}) if False else None
        # Reading:
        def linkList(a, x, p, n):
            e = typeName(a.ref["Elem"])
            last = lambda f: 'lastField(%s, %s, "%s")' % (p, n, f)
            return '%s != nil && (%s.link <==> (%s >= 0 && strAt(step(posAt(%s, %s))) == "%sListLink")) && %s.href == (%s >= 0 ? strAt(step(posAt(%s, %s))) : "") && (%s >= 0 ==> readItems%s(%s.items, step(posAt(%s, %s))))' % (
                x, x, last("kind"), p, last("kind"), e, x, last("href"), p, last("href"), last("items"), e, x, p, last("items"))

        clauses = []
        if link is not None:
            clauses.append(("kind", "(bit(o.bitmap_, %d) <==> anyKind(%%(p)s, %%(n)s, \"%sLink\"))" % (link, g)))
        for a in l:
            j = quote(json[t["Name"]][a.go])
            lf = "lastField(%%(p)s, %%(n)s, %s)" % j
            at = "step(posAt(%%(p)s, %s))" % lf
            k = a.ref["Kind"]
            c = "(bit(o.bitmap_, %d) <==> %s >= 0)" % (a.bit, lf)
            if k in ("class", "struct"):
                c += " && (%s >= 0 ==> read%s(o.%s, %s))" % (lf, types[a.ref["Name"]]["Go"], a.field, at)
            elif k == "list" and not a.link:
                c += " && (%s >= 0 ==> readItems%s(o.%s, %s))" % (lf, typeName(a.ref["Elem"]), a.field, at)
            elif k == "list":
                x = "o." + a.field
                c += " && (%s >= 0 ==> %s)" % (lf, linkList(a, x, at, "fieldCount(%s)" % at))
            elif k not in ("list", "map", "interface"):
                c += " && (%s >= 0 ==> o.%s == %s)" % (lf, a.field, read(k, at))
            clauses.append((a.field, c))
        out.append("define read%s(o *%s.%s, p int) bool = o != nil%s" % (g, P, g, "".join(" &&\n  " + c % {"p": "p", "n": "fieldCount(p)"} for _, c in clauses)))
        p0 = "old(iterator.at)"
        lines = ["props P14", "requires iterator != nil", "modifies iterator.at, iterator.Error",
                 "ensures object: o != nil", "ensures fresh: fresh(o)",
                 "ensures state: iterator.at == after(%s)" % p0,
                 "inv iterator.at == posAt(atloop(iterator.at), iter()) && (forall j in 0..iter() {posAt(atloop(iterator.at), j)} :: fieldAt(posAt(atloop(iterator.at), j)) != \"\")",
                 ]
        for f, c in clauses:
            lines.append("ensures read_%s: %s" % (f, c % {"p": p0, "n": "fieldCount(%s)" % p0}))
            lines.append("inv (o: *%s.%s): %s" % (P, g, c % {"p": p0, "n": "iter()"}))
        for a in l:
            if a.ref["Kind"] == "list" and a.link:
                L = "*%s.%sList" % (P, typeName(a.ref["Elem"]))
                lines.append("inv (l: %s): %s" % (L, linkList(a, "l", "atloop(iterator.at)", "iter()")))
                f = "o." + a.field
                lines.append("inv (l: %s, o: *%s.%s): fresh(l) && l != o.%s && (%s != nil ==> %s.link == atloop(%s.link) && %s.href == atloop(%s.href) && %s.items == atloop(%s.items))" % (
                    L, P, g, a.field, f, f, f, f, f, f, f))
        lines.append("nopanic")
        out.append('func "%s.Read%s" (iterator) -> (o)\n  %s\n' % (P, g, "\n  ".join(lines)))
    return "\n".join(out) + "\n", skipped


DOCUMENTS = '''
import io "io"
import helpers "example.com/api/helpers"
transparent jsoniter.Stream
transparent jsoniter.Iterator

// The last stream and iterator that were made, and how they ended.
fun streams() *jsoniter.Stream
fun iterators() *jsoniter.Iterator
ghost jsoniter.Stream.made *jsoniter.Stream
ghost jsoniter.Stream.out any
ghost jsoniter.Stream.flushed error
ghost jsoniter.Iterator.made *jsoniter.Iterator
ghost jsoniter.Iterator.failure error
fun startOf(x any) int

extern func "helpers.NewStream" (w) -> (s)
  modifies streams().made
  ensures fresh(s) && s == streams().made && s.out == w && s.doc == sempty && !s.bad && s.after == 0
extern func "(*jsoniter.Stream).Flush" (s) -> (err)
  modifies s.flushed, s.Error
  ensures err == s.flushed
extern func "helpers.NewIterator" (x) -> (it, err)
  modifies iterators().made, iterators().failure
  ensures iterators().made == it && iterators().failure == err
  ensures err == nil ==> it != nil && it.at == startOf(x)
  ensures err == nil && !typeis(x, *jsoniter.Iterator) ==> fresh(it)
  ensures typeis(x, *jsoniter.Iterator) ==> err == nil && it == dyn(x, *jsoniter.Iterator)
'''


def documents(v, pkg, spec):
    """Contracts of the functions that write and read whole documents, for those of spec."""
    P = pkg
    out = []
    for t in v["Types"]:
        g = t["Go"]
        for name, arg, okay, doc in (
                (g, "o", "ok%s(o)" % g, "doc%s(o, sempty)" % g),
                (g + "List", "list", "forall i in 0..len(list) {list[i]} :: ok%s(list[i])" % g, 'snoc(items%s(elems(list), len(list), snoc(sempty, "[")), "]")' % g)):
            m = re.search(r'func "%s\.Write%s" .*?\n\n' % (P, name), spec + "\n", re.S)
            if m:
                lines = ["props P14"] + (["requires " + okay] if okay in m.group(0) or okay.replace("list", "list") in m.group(0) else []) + [
                    "modifies streams().made",
                    "ensures target: streams().made.out == writer && !streams().made.bad",
                    "ensures error: err == (streams().made.flushed != nil ? streams().made.flushed : streams().made.Error)"]
                if "ensures doc:" in m.group(0):
                    lines.append("ensures doc: streams().made.doc == " + doc)
                out.append('func "%s.Marshal%s" (%s, writer) -> (err)\n  %s\n' % (P, name, arg, "\n  ".join(lines + ["nopanic"])))
            m = re.search(r'func "%s\.Read%s" .*?\n\n' % (P, name), spec + "\n", re.S)
            if m:
                read = "readItems%s(o, startOf(source))" % g if arg == "list" else "o != nil && fresh(o) && read%s(o, startOf(source))" % g
                out.append('func "%s.Unmarshal%s" (source) -> (o, err)\n  %s\n' % (P, name, "\n  ".join([
                    "props P14", "requires typeis(source, *jsoniter.Iterator) ==> dyn(source, *jsoniter.Iterator) != nil && dyn(source, *jsoniter.Iterator).at == startOf(source)",
                    "modifies iterators().made, iterators().failure, dyn(source, *jsoniter.Iterator).at, dyn(source, *jsoniter.Iterator).Error",
                    "ensures source: iterators().failure != nil ==> err == iterators().failure && o == nil",
                    "ensures error: iterators().failure == nil ==> err == iterators().made.Error",
                    "ensures read: iterators().failure == nil ==> " + read, "nopanic"])))
    return "\n".join(out) + "\n"
