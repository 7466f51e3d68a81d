"""Contracts of the generated code.

The code is generated by the tool built from /repo for a model with types that have attributes of all
the kinds (harness/gencode). The contracts come from the description of the model, not from the code:
the only things taken from the code are, for each attribute, the name of the field and the position of
the flag that the getter uses, because the contracts of the setters, Build and Copy are written in
terms of them. When they can't be recognized the attribute isn't put under contract, and only the
concrete harness covers it.
"""
import json
import os
import re

PKG = "v1"
SCALARS = {"boolean": "false", "integer": "0", "long": "0", "string": '""', "enum": '""', "interface": "nil"}


def generate(check):
    """Generates the code, and returns its directory and the description of the model."""
    binary, err = check.build_harness("gencode")
    if binary is None:
        check.notes.append("the generator of the code to verify doesn't build: " + err[-800:])
        return None
    from check import run
    out = os.path.join(check.scratch, "gencode.json")
    work = os.path.join(check.scratch, "gencode")
    os.makedirs(work, exist_ok=True)
    run([binary, "-tier", "quick", "-seed", "1", "-out", out, "-scratch", work], cwd=work, timeout=200)
    d = os.path.join(work, "generated")
    if not os.path.exists(os.path.join(d, "desc.json")) or not os.path.isdir(os.path.join(d, "code")):
        check.notes.append("the code to verify can't be generated")
        return None
    with open(os.path.join(d, "desc.json")) as f:
        return d, json.load(f)


def functions(directory):
    """Text of the functions of the package, by receiver and name."""
    res = {}
    for name in sorted(os.listdir(directory)):
        if not name.endswith(".go"):
            continue
        text = open(os.path.join(directory, name)).read()
        for m in re.finditer(r"^func \((\w+) \*(\w+)\) (\w+)\((.*?)\n}\n", text, re.M | re.S):
            res[(m.group(2), m.group(3))] = (m.group(1), m.group(0))
        for m in re.finditer(r"^func (\w+)\((.*?)\n}\n", text, re.M | re.S):
            res[("", m.group(1))] = ("", m.group(0))
    return res


class Attr:
    def __init__(self, go, kind, ref, link, bit, field):
        self.go, self.kind, self.ref, self.link, self.bit, self.field = go, kind, ref, link, bit, field


def prepare(check, ver):
    got = generate(check)
    if got is None:
        return None
    d, desc = got
    v = desc[0]
    code = os.path.join(d, "code")
    if ver.get("json"):
        import generated_json
        attrs, skipped = fields(code, v)
        types = {t["Name"]: t for t in v["Types"]}
        usable = {}
        spec, more = generated_json.contracts(v, attrs, types, PKG, usable)
        spec = 'import %s "example.com/api/%s/%s"\nimport time "time"\n' % (PKG, v["Service"], v["Go"]) + spec
        if ver.get("clients"):
            import generated_clients
            text, more = generated_clients.contracts(code, v, PKG, usable)
            spec = 'import %s "example.com/api/%s"\n' % (v["Service"], v["Service"]) + spec + generated_clients.HEAD + text
        else:
            spec += generated_json.DOCUMENTS + generated_json.documents(v, PKG, spec)
        skipped += more
    else:
        spec, skipped, count = contracts(code, v)
    if skipped:
        check.notes.append("not recognized, covered only by the concrete harness: " + ", ".join(skipped[:20]) + (" and %d more" % (len(skipped) - 20) if len(skipped) > 20 else ""))
    path = os.path.join(check.scratch, "generated.spec")
    with open(path, "w") as f:
        f.write(spec)
    patterns = "./%s/..." % v["Service"] + ",./helpers" if ver.get("clients") else "./%s/%s" % (v["Service"], v["Go"])
    return code, "example.com/api", patterns, [path]


def fields(code, v):
    """Fields and flags of the attributes, by name of type, and those not recognized."""
    fns = functions(os.path.join(code, v["Service"], v["Go"]))
    skipped = []
    attrs = {}
    for t in v["Types"]:
        if t["Kind"] not in ("class", "struct"):
            continue
        l = []
        if t["Kind"] == "class":
            for go in ("ID", "HREF"):
                l.append((go, "string", {"Kind": "string"}, False))
        for a in t["Attrs"] or []:
            l.append((a["Go"], a["Ref"]["Kind"], a["Ref"], a["Link"]))
        res = []
        for go, kind, ref, link in l:
            r, text = fns.get((t["Go"], "Get" + go), ("", ""))
            m = re.search(r"%s\.bitmap_&(\d+) != 0" % r, text) if text else None
            f = re.search(r"value = %s\.(\w+)" % r, text) if text else None
            if not m or not f or bin(int(m.group(1))).count("1") != 1:
                skipped.append("%s.%s" % (t["Go"], go))
                continue
            res.append(Attr(go, kind, ref, link, int(m.group(1)).bit_length() - 1, f.group(1)))
        link = None
        if t["Kind"] == "class":
            r, text = fns.get((t["Go"], "Link"), ("", ""))
            m = re.search(r"%s\.bitmap_&(\d+) != 0" % r, text) if text else None
            if m and bin(int(m.group(1))).count("1") == 1:
                link = int(m.group(1)).bit_length() - 1
            else:
                skipped.append("%s.Link" % t["Go"])
        attrs[t["Name"]] = (res, link)
    return attrs, skipped


def contracts(code, v):
    types = {t["Name"]: t for t in v["Types"]}
    out = ['import %s "example.com/api/%s/%s"' % (PKG, v["Service"], v["Go"]), "import time \"time\"", ""]
    sel = [t for t in v["Types"] if t["Kind"] in ("class", "struct")]
    attrs, skipped = fields(code, v)

    def bits(t):
        l, link = attrs[t["Name"]]
        return ([link] if link is not None else []) + [a.bit for a in l]

    def elem(ref):
        return types.get(ref["Elem"]["Name"]) if ref.get("Elem") and ref["Elem"].get("Name") else None

    def structured(ref):
        return ref["Kind"] in ("class", "struct")

    def scalar(ref):
        return not structured(ref) and ref["Kind"] not in ("list", "map")

    # Distinct flags:
    for t in sel:
        bs = bits(t)
        distinct = len(set(bs)) == len(bs)
        out.append("// flags of %s: %s" % (t["Go"], bs))
        out.append('lemma flags%s(b bool) : %s' % (t["Go"], "true" if distinct else "false"))
    out.append("")

    # Relation between the flags and scalar values of a builder and an object:
    for t in sel:
        l, link = attrs[t["Name"]]
        c = []
        if link is not None:
            c.append("(bit(o.bitmap_, %d) <==> bit(b.bitmap_, %d))" % (link, link))
        for a in l:
            c.append("(bit(o.bitmap_, %d) <==> bit(b.bitmap_, %d))" % (a.bit, a.bit))
            if scalar(a.ref) and a.kind != "interface":
                c.append("(bit(o.bitmap_, %d) ==> o.%s == b.%s)" % (a.bit, a.field, a.field))
        out.append("define same%s(o *%s.%s, b *%s.%sBuilder) bool =\n  %s" % (t["Go"], PKG, t["Go"], PKG, t["Go"], " &&\n  ".join(c) or "true"))
    out.append("")

    def func(name, sig, *lines):
        out.append('func "%s" %s' % (name, sig))
        out.append("  props P13")
        for x in lines:
            out.append("  " + x)
        out.append("")

    for t in sel:
        g = t["Go"]
        l, link = attrs[t["Name"]]
        T, B = "(*%s.%s)" % (PKG, g), "(*%s.%sBuilder)" % (PKG, g)
        # Getters:
        for a in l:
            zero = SCALARS.get(a.kind)
            if a.kind in ("class", "struct", "list", "map"):
                zero = "nil"
            z = "ensures zero: !ok ==> value == %s" % zero if zero else "ensures true"
            func("%s.Get%s" % (T, a.go), "(o) -> (value, ok)",
                 "ensures presence: ok <==> o != nil && bit(o.bitmap_, %d)" % a.bit,
                 "ensures value: ok ==> value == o.%s" % a.field, z, "nopanic")
            z = "ensures zero: o == nil || !bit(o.bitmap_, %d) ==> r == %s" % (a.bit, zero) if zero else "ensures true"
            func("%s.%s" % (T, a.go), "(o) -> (r)",
                 "ensures value: o != nil && bit(o.bitmap_, %d) ==> r == o.%s" % (a.bit, a.field), z, "nopanic")
        have = [a for a in l]
        complete = len(have) == len(t["Attrs"] or []) + (2 if t["Kind"] == "class" else 0)
        if complete:
            cond = " && ".join("!bit(o.bitmap_, %d)" % a.bit for a in have) or "true"
            # The other bits are never set, which is a fact about objects that were built or read:
            width = 64 if max([a.bit for a in have] + [link or 0, 0]) > 31 else 32
            func("%s.Empty" % T, "(o) -> (r)", "ensures nothing: r ==> o == nil || (%s)" % cond, "ensures nil: o == nil ==> r", "nopanic")
            func("%s.Empty" % B, "(o) -> (r)", "ensures nothing: r ==> o == nil || (%s)" % cond, "ensures nil: o == nil ==> r", "nopanic")
        if link is not None:
            func("%s.Link" % T, "(o) -> (r)", "ensures flag: r <==> o != nil && bit(o.bitmap_, %d)" % link, "nopanic")
            func("%s.Kind" % T, "(o) -> (r)",
                 'ensures kind: r == (o == nil ? "%sNil" : bit(o.bitmap_, %d) ? "%sLink" : "%s")' % (g, link, g, g), "nopanic")
            others = " && ".join("(bit(b.bitmap_, %d) <==> old(bit(b.bitmap_, %d)))" % (k, k) for k in bits(t) if k != link) or "true"
            func("%s.Link" % B, "(b, value) -> (r)", "requires b != nil", "modifies b.bitmap_", "ensures same: r == b",
                 "ensures flag: bit(b.bitmap_, %d) <==> value" % link, "ensures others: " + others, "nopanic")
        func("%s.New%s" % (PKG, g), "() -> (b)", "ensures new: b != nil",
             "ensures nothing: " + (" && ".join("!bit(b.bitmap_, %d)" % k for k in bits(t)) or "true"), "ensures fresh: fresh(b)", "nopanic")
        # Setters:
        for a in l:
            others = " && ".join("(bit(b.bitmap_, %d) <==> old(bit(b.bitmap_, %d)))" % (k, k) for k in bits(t) if k != a.bit) or "true"
            lines = ["requires b != nil", "modifies b.%s, b.bitmap_" % a.field, "ensures same: r == b", "ensures others: " + others, "nopanic"]
            if a.kind == "list" and not a.link:
                lines += ["ensures present: bit(b.bitmap_, %d)" % a.bit,
                          "ensures length: len(b.%s) == len(old(value))" % a.field,
                          "ensures items: forall j in 0..len(b.%s) {b.%s[j]} :: b.%s[j] == old(value[j])" % (a.field, a.field, a.field),
                          "ensures defined: b.%s != nil" % a.field]
            elif a.kind in ("class", "struct", "map"):
                lines += ["ensures present: bit(b.bitmap_, %d) <==> value != nil" % a.bit, "ensures value: b.%s == value" % a.field]
            else:
                lines += ["ensures present: bit(b.bitmap_, %d)" % a.bit, "ensures value: b.%s == value" % a.field]
            func("%s.%s" % (B, a.go), "(b, value) -> (r)", *lines)
        # Build and Copy:
        build = ["requires b != nil", "assumepre", "inv (e: error): e == nil", "ensures succeeds: err == nil", "ensures built: object != nil && same%s(object, b)" % g, "ensures fresh: fresh(object)"]
        frame = ["b.bitmap_"] + ["b." + a.field for a in l]
        copy = ["requires b != nil", "modifies " + ", ".join(frame), "ensures same: r == b",
                "ensures copied: object != nil ==> same%s(object, b)" % g,
                "ensures nothing: object == nil ==> " + (" && ".join("(bit(b.bitmap_, %d) <==> old(bit(b.bitmap_, %d)))" % (k, k) for k in bits(t)) or "true")]
        loops = set()
        for a in l:
            f = a.field
            p = "bit(b.bitmap_, %d) ==> " % a.bit
            c = "object != nil && bit(object.bitmap_, %d) ==> " % a.bit
            if structured(a.ref) and a.ref["Name"] in types:
                u = types[a.ref["Name"]]["Go"]
                build.append("ensures value_%s: %s(b.%s == nil <==> object.%s == nil) && (b.%s != nil ==> same%s(object.%s, b.%s))" % (f, p, f, f, f, u, f, f))
                copy.append("ensures value_%s: %s(b.%s == nil <==> object.%s == nil) && (b.%s != nil ==> same%s(object.%s, b.%s))" % (f, c, f, f, f, u, f, f))
            elif a.kind == "list" and not a.link:
                e = elem(a.ref)
                if e is not None and e["Kind"] in ("class", "struct"):
                    q = "same%s(object.%s[j], b.%s[j])" % (e["Go"], f, f)
                    build.insert(1, "requires b.%s != nil ==> forall j in 0..len(b.%s) {b.%s[j]} :: b.%s[j] != nil" % (f, f, f, f))
                    build.append("inv (i: idx, s: []*%s.%s, object: *%s.%s): s == object.%s && len(s) == len(b.%s) && fresh(s)" % (PKG, e["Go"], PKG, g, f, f))
                    build.append("inv (i: idx, object: *" + PKG + "." + g + "): object != nil && fresh(object) && len(object.%s) == len(b.%s) && (forall j in 0..i {object.%s[j]} :: object.%s[j] != nil && %s)" % (f, f, f, f, q))
                    copy.append("inv (i: idx): len(object.%s) == len(b.%s) && (forall j in 0..i {b.%s[j]} :: object.%s[j] != nil ==> b.%s[j] != nil && %s)" % (f, f, f, f, f, q))
                    if e["Go"] == g:
                        # The object isn't one of its own parts, so that later assignments don't change them:
                        build.append("inv (i: idx, object: *%s.%s): object != nil && len(object.%s) == len(b.%s) && (forall j in 0..i {object.%s[j]} :: object.%s[j] != object)" % (PKG, g, f, f, f, f))
                        copy.append("inv (i: idx): len(object.%s) == len(b.%s) && (forall j in 0..i {b.%s[j]} :: b.%s[j] != b)" % (f, f, f, f))
                    q2 = "object.%s[j] != nil ==> b.%s[j] != nil && %s" % (f, f, q)
                    q = "object.%s[j] != nil && %s" % (f, q)
                else:
                    q = q2 = "object.%s[j] == b.%s[j]" % (f, f)
                build.append("ensures value_%s: %s(b.%s == nil <==> object.%s == nil) && len(object.%s) == len(b.%s) && (forall j in 0..len(b.%s) {object.%s[j]} :: %s)" % (f, p, f, f, f, f, f, f, q))
                copy.append("ensures value_%s: %s(b.%s == nil <==> object.%s == nil) && len(object.%s) == len(b.%s) && (forall j in 0..len(b.%s) {b.%s[j]} :: %s)" % (f, c, f, f, f, f, f, f, q2))
        func("%s.Build" % B, "(b) -> (object, err)", *build)
        func("%s.Copy" % B, "(b, object) -> (r)", *copy)
        # Lists:
        L, LB = "(*%s.%sList)" % (PKG, g), "(*%s.%sListBuilder)" % (PKG, g)
        func("%s.Len" % L, "(l) -> (r)", "ensures length: r == (l == nil ? 0 : len(l.items))", "nopanic")
        func("%s.Empty" % L, "(l) -> (r)", "ensures empty: r <==> l == nil || len(l.items) == 0", "nopanic")
        func("%s.Items" % L, "(l) -> (r)", "ensures items: l != nil ==> r == l.items", "ensures nil: l == nil ==> r == nil", "nopanic")
        func("%s.SetItems" % L, "(l, items)", "requires l != nil", "modifies l.items", "ensures set: l.items == items", "nopanic")
        func("%s.Get" % L, "(l, i) -> (r)", "ensures inside: l != nil && 0 <= i && i < len(l.items) ==> r == l.items[i]",
             "ensures outside: l == nil || i < 0 || i >= len(l.items) ==> r == nil", "nopanic")
        func("%s.Slice" % L, "(l) -> (r)", "ensures length: len(r) == (l == nil ? 0 : len(l.items))",
             "ensures items: l != nil ==> forall j in 0..len(r) {r[j]} :: r[j] == l.items[j]", "ensures fresh: fresh(r)", "nopanic")
        if t["Kind"] == "class":
            func("%s.Kind" % L, "(l) -> (r)", 'ensures kind: r == (l == nil ? "%sListNil" : l.link ? "%sListLink" : "%sList")' % (g, g, g), "nopanic")
            func("%s.Link" % L, "(l) -> (r)", "ensures flag: r <==> l != nil && l.link", "nopanic")
            func("%s.SetLink" % L, "(l, link)", "requires l != nil", "modifies l.link", "ensures set: l.link <==> link", "nopanic")
            func("%s.SetHREF" % L, "(l, href)", "requires l != nil", "modifies l.href", "ensures set: l.href == href", "nopanic")
            func("%s.HREF" % L, "(l) -> (r)", 'ensures value: r == (l == nil ? "" : l.href)', "nopanic")
            func("%s.GetHREF" % L, "(l) -> (value, ok)", 'ensures presence: ok <==> l != nil && l.href != ""', "ensures value: ok ==> value == l.href", "nopanic")
        func("%s.Items" % LB, "(b, values) -> (r)", "requires b != nil", "modifies b.items", "ensures same: r == b",
             "ensures length: len(b.items) == len(old(values))", "ensures items: forall j in 0..len(b.items) {b.items[j]} :: b.items[j] == old(values[j])", "nopanic")
        func("%s.Empty" % LB, "(b) -> (r)", "ensures empty: r <==> b == nil || len(b.items) == 0", "nopanic")
        func("%s.Build" % LB, "(b) -> (list, err)", "requires b != nil", "requires forall j in 0..len(b.items) {b.items[j]} :: b.items[j] != nil", "assumepre", "inv (e: error): e == nil", "ensures succeeds: err == nil", "ensures length: list != nil && len(list.items) == len(b.items)",
             "ensures items: forall j in 0..len(b.items) {list.items[j]} :: list.items[j] != nil && same%s(list.items[j], b.items[j])" % g,
             "inv (i: idx, s: []*%s.%s): len(s) == len(b.items) && (forall j in 0..i {s[j]} :: s[j] != nil && same%s(s[j], b.items[j]))" % (PKG, g, g), "ensures fresh: fresh(list)")
        func("%s.Copy" % LB, "(b, list) -> (r)", "requires b != nil", "modifies b.items", "ensures same: r == b",
             "ensures length: len(b.items) == (list == nil ? 0 : len(list.items))",
             "ensures items: list != nil ==> forall j in 0..len(b.items) {b.items[j]} :: list.items[j] != nil ==> b.items[j] != nil && same%s(list.items[j], b.items[j])" % g,
             "inv (i: idx): len(b.items) == len(list.items) && (forall j in 0..i {b.items[j]} :: list.items[j] != nil ==> b.items[j] != nil && same%s(list.items[j], b.items[j]))" % g)
    return "\n".join(out) + "\n", skipped, len(out)


if __name__ == "__main__":
    import sys
    d = sys.argv[1]
    spec, skipped, n = contracts(os.path.join(d, "code"), json.load(open(os.path.join(d, "desc.json")))[0])
    open(sys.argv[2], "w").write(spec)
    print(skipped, n)
