#!/usr/bin/env python3
"""Writes contracts/checks.spec: the conventions of the methods as recursive predicates over the
parameters, and the contracts of the functions that check them."""
import os

OUT = []
P = "a seq *concepts.Parameter, n int"
DONE = set()

# conditions on one parameter
C = {
    "Scalar": "scalarType({p}.typ)",
    "Struct": "isStructT({p}.typ)",
    "List": "isListT({p}.typ)",
    "ScalarStruct": "scalarType({p}.typ) || isStructT({p}.typ)",
    "ScalarList": "scalarType({p}.typ) || isListT({p}.typ)",
    "ScalarStructList": "scalarType({p}.typ) || isStructT({p}.typ) || isListT({p}.typ)",
    "StructList": "isStructT({p}.typ) || isListT({p}.typ)",
    "In": "{p}.in",
    "Out": "{p}.out",
    "InOut": "{p}.in && {p}.out",
    "OnlyIn": "{p}.in && !{p}.out",
    "OnlyOut": "{p}.out && !{p}.in",
    "Body": 'named({p}.name, "body")',
    "Items": 'named({p}.name, "items")',
    "StructIn": "isStructT({p}.typ) && {p}.in",
    "OnlyInBody": '{p}.in && !{p}.out && named({p}.name, "body")',
}


def w(s):
    OUT.append(s)


def cond(c):
    return C[c].format(p="a[n - 1]")


def count(f):
    n = "count" + f
    if n not in DONE:
        DONE.add(n)
        w("rec %s(%s) int = n <= 0 ? 0 : %s(a, n - 1) + (%s ? 1 : 0)" % (n, P, n, cond(f)))
    return n


def all_(c, same=False):
    n = "all" + c
    if n not in DONE:
        DONE.add(n)
        w("rec %s(%s) bool = n <= 0 ? true : %s(a, n - 1) && (%s)" % (n, P, n, cond(c)))
    if same and n + "Same" not in DONE:
        DONE.add(n + "Same")
        w("lemma %sSame(a, b seq *concepts.Parameter, n int) induct n {%s(a, n), %s(b, n)} :\n"
          "  (forall j in 0..n {a[j]} {b[j]} :: a[j] == b[j]) ==> (%s(a, n) <==> %s(b, n))" % (n, n, n, n, n))
    return n


def each(f, c):
    n = "each%s%s" % (f, c)
    if n not in DONE:
        DONE.add(n)
        w("rec %s(%s) bool = n <= 0 ? true : %s(a, n - 1) && ((%s) ==> (%s))" % (n, P, n, cond(f), cond(c)))
    return n


def method(name, clauses, extra=()):
    """clauses: ("all", C) | ("each", F, C): every F has C | ("one", F) | ("most", F): number of F;
    each filtered slice gets the invariants that relate it with the parameters."""
    A = "elems(m.parameters), len(m.parameters)"
    post, invs = [], ["r.reporter.errors >= atloop(r.reporter.errors)",
                      "(s: []*concepts.Parameter): forall j in 0..len(s) {s[j]} :: s[j] != nil && s[j].typ != nil && wordsOk(s[j].name)"]
    err = "r.reporter.errors == atloop(r.reporter.errors)"
    for cl in clauses:
        if cl[0] == "all":
            n = all_(cl[1])
            post.append("%s(%s)" % (n, A))
            invs.append("(i: idx): %s <==> old(%s(elems(m.parameters), i))" % (err, n))
        elif cl[0] == "direct":
            n = each(cl[1], cl[2])
            post.append("%s(%s)" % (n, A))
            invs.append("(i: idx): %s <==> old(%s(elems(m.parameters), i))" % (err, n))
        elif cl[0] == "each":
            a, e = all_(cl[2], True), each(cl[1], cl[2])
            post.append("%s(%s)" % (e, A))
            invs.append("(i: idx, s: []*concepts.Parameter): %s(elems(s), len(s)) <==> old(%s(elems(m.parameters), i))" % (a, e))
            invs.append("(i: idx, s: []*concepts.Parameter): %s <==> %s(elems(s), i)" % (err, a))
        else:
            n = count(cl[1])
            post.append("%s(%s) %s 1" % (n, A, "==" if cl[0] == "one" else "<="))
            invs.append("(i: idx, s: []*concepts.Parameter): len(s) == old(%s(elems(m.parameters), i))" % n)
    post += list(extra)
    w("")
    w("define conforms%s(m *concepts.Method) bool =\n  %s" % (name, " &&\n  ".join(post)))
    w('func "(*language.Reader).check%s" (r, m)' % name)
    w("  props P08\n  heavy")
    w("  requires okCheck(r, m)")
    w("  modifies r.reporter.errors")
    w("  hide firstParamFound, firstParamKept, firstParamAt")
    w("  ensures monotone: r.reporter.errors >= old(r.reporter.errors)")
    w("  ensures reported: r.reporter.errors == old(r.reporter.errors) <==> conforms%s(m)" % name)
    for i in dict.fromkeys(invs):
        w("  inv " + i)
    w("")


w("""// Contracts of the checks of the conventions of methods. Written by tools/gen_checks.py.

import language "github.com/openshift-online/ocm-api-metamodel/pkg/language"

define isStructT(t *concepts.Type) bool = t.kind == 1 || t.kind == 7
define isListT(t *concepts.Type) bool = t.kind == 4

define okCheck(r *language.Reader, m *concepts.Method) bool =
  r != nil && r.reporter != nil && paramsOk(m) &&
  (forall i in 0..len(m.parameters) {m.parameters[i]} :: m.parameters[i].typ != nil && wordsOk(m.parameters[i].name)) &&
  m.owner != nil && m.owner.owner != nil && m.owner.owner.types != nil

define pageOk(m *concepts.Method, p *concepts.Parameter, dflt int) bool =
  p == nil || p.typ == builtin(m.owner.owner, "integer") && p.in && p.out && p.dflt == box(dflt)
define totalOk(m *concepts.Method, p *concepts.Parameter) bool =
  p == nil || p.typ == builtin(m.owner.owner, "integer") && !p.in && p.out
define pOf(m *concepts.Method, name *names.Name) *concepts.Parameter =
  firstParam(elems(m.parameters), len(m.parameters), name)

func "(*language.Reader).checkRequestParameter" (r, m, name, dflt)
  props P08
  requires okCheck(r, m) && wordsOk(name)
  modifies r.reporter.errors
  ensures monotone: r.reporter.errors >= old(r.reporter.errors)
  ensures reported: r.reporter.errors == old(r.reporter.errors) <==> pageOk(m, pOf(m, name), dflt)

func "(*language.Reader).checkResponseParameter" (r, m, name)
  props P08
  requires okCheck(r, m) && wordsOk(name)
  modifies r.reporter.errors
  ensures monotone: r.reporter.errors >= old(r.reporter.errors)
  ensures reported: r.reporter.errors == old(r.reporter.errors) <==> totalOk(m, pOf(m, name))

define paged(m *concepts.Method) bool =
  pageOk(m, pOf(m, nomenclator.Page), 1) && pageOk(m, pOf(m, nomenclator.Size), 100) &&
  totalOk(m, pOf(m, nomenclator.Total)) && pOf(m, nomenclator.Items) != nil
""")

method("Add", [("all", "ScalarStruct"), ("one", "Struct"), ("each", "Struct", "InOut"), ("each", "Struct", "Body")])
method("Delete", [("all", "Scalar"), ("all", "OnlyIn")])
method("Get", [("all", "ScalarStruct"), ("one", "Struct"), ("direct", "Scalar", "OnlyIn"),
               ("each", "Struct", "OnlyOut"), ("each", "Struct", "Body")])
method("List", [("all", "ScalarList"), ("one", "List"), ("each", "List", "OnlyOut"), ("each", "List", "Items")],
       ["paged(m)"])
method("Post", [("most", "In"), ("one", "Out"), ("each", "In", "Struct"), ("each", "Out", "Struct")])
method("Search", [("each", "Out", "ScalarList"), ("each", "In", "ScalarStruct"), ("one", "List"),
                  ("each", "List", "OnlyOut"), ("each", "List", "Items"), ("one", "StructIn"),
                  ("each", "StructIn", "OnlyInBody")], ["paged(m)"])
method("Update", [("all", "ScalarStructList"), ("one", "StructList"), ("direct", "Scalar", "OnlyIn"),
                  ("each", "StructList", "InOut"), ("each", "StructList", "Body")])

w("""
// The default value of a parameter has the type of the parameter:
define defaultOk(p *concepts.Parameter, v *concepts.Version) bool =
  p.dflt == nil ||
  (typeis(p.dflt, bool) && (builtin(v, "boolean") == nil || p.typ == builtin(v, "boolean"))) ||
  (typeis(p.dflt, int) && (builtin(v, "integer") == nil || p.typ == builtin(v, "integer"))) ||
  (typeis(p.dflt, string) && (builtin(v, "string") == nil || p.typ == builtin(v, "string")))

func "(*language.Reader).checkParameter" (r, p)
  props P08
  requires r != nil && r.reporter != nil && p != nil && p.owner != nil && p.owner.owner != nil && p.owner.owner.owner != nil && p.owner.owner.owner.types != nil
  modifies r.reporter.errors
  ensures monotone: r.reporter.errors >= old(r.reporter.errors)
  ensures reported: r.reporter.errors == old(r.reporter.errors) <==> defaultOk(p, p.owner.owner.owner)

define conforms(m *concepts.Method) bool =
  (named(m.name, "add") ==> conformsAdd(m)) &&
  (named(m.name, "delete") || named2(m.name, "async", "delete") ==> conformsDelete(m)) &&
  (named(m.name, "get") ==> conformsGet(m)) &&
  (named(m.name, "list") ==> conformsList(m)) &&
  (named(m.name, "post") ==> conformsPost(m)) &&
  (named(m.name, "search") ==> conformsSearch(m)) &&
  (named(m.name, "update") || named2(m.name, "async", "update") ==> conformsUpdate(m))

rec allDefaults(a seq *concepts.Parameter, v *concepts.Version, n int) bool =
  n <= 0 ? true : allDefaults(a, v, n - 1) && defaultOk(a[n - 1], v)

define okMethod(r *language.Reader, m *concepts.Method) bool =
  okCheck(r, m) && wordsOk(m.name) &&
  (forall i in 0..len(m.parameters) {m.parameters[i]} :: m.parameters[i].owner == m)
define methodFine(m *concepts.Method) bool =
  conforms(m) && allDefaults(elems(m.parameters), m.owner.owner, len(m.parameters))

func "(*language.Reader).checkMethod" (r, m)
  props P08
  requires okMethod(r, m)
  modifies r.reporter.errors
  ensures monotone: r.reporter.errors >= old(r.reporter.errors)
  ensures reported: r.reporter.errors == old(r.reporter.errors) <==> methodFine(m)
  inv r.reporter.errors >= atloop(r.reporter.errors)
  inv (i: idx): r.reporter.errors == atloop(r.reporter.errors) <==> old(allDefaults(elems(m.parameters), m.owner.owner, i))

rec allMethods(a seq *concepts.Method, n int) bool = n <= 0 ? true : allMethods(a, n - 1) && methodFine(a[n - 1])
define okRes(r *language.Reader, s *concepts.Resource) bool =
  r != nil && r.reporter != nil && s != nil && (forall i in 0..len(s.methods) {s.methods[i]} :: okMethod(r, s.methods[i]))

func "(*language.Reader).checkResource" (r, s)
  props P08
  requires okRes(r, s)
  modifies r.reporter.errors
  ensures monotone: r.reporter.errors >= old(r.reporter.errors)
  ensures reported: r.reporter.errors == old(r.reporter.errors) <==> allMethods(elems(s.methods), len(s.methods))
  inv r.reporter.errors >= atloop(r.reporter.errors)
  inv (i: idx): r.reporter.errors == atloop(r.reporter.errors) <==> old(allMethods(elems(s.methods), i))
""")

path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "contracts", "checks.spec")
with open(path, "w") as f:
    f.write("\n".join(OUT))
