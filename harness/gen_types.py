#!/usr/bin/env python3
"""Turns the types printed by spec/CodecVec (WHICH = "types") into Rust: codec/src/types.rs.

usage: gen_types.py < lines
The result is committed; the harness compares the descriptor of every type with what the specification prints.
"""
import json
import re
import sys

KEYWORDS = set("""as break const continue crate else enum extern false fn for if impl in let loop match mod move mut pub ref
return self Self static struct super trait true type unsafe use where while async await dyn abstract become box do final macro
override priv typeof unsized virtual yield try gen""".split())
PLACE = {"<q>": '"', "<b>": "\\", "<u>": "é", "<w>": "😀", "<0>": "\0", "<n>": "\n"}
PRIM = {"bool": "bool", "char": "char", "str": "String", "leaf": "Leaf", "even": "Even"}
for b in "8 16 32 64".split():
    for s in "iu":
        PRIM[s + b] = s + b
        PRIM["nz_" + s + b] = "std::num::NonZero" + s.upper() + b
PRIM["f32"], PRIM["f64"] = "f32", "f64"


def text(s):
    return re.sub(r"<[qbuw0n]>", lambda m: PLACE[m.group()], s)


def lit(s):
    o = '"'
    for c in text(s):
        o += {'"': '\\"', "\\": "\\\\", "\0": "\\0", "\n": "\\n"}.get(c, c)
    return o + '"'


def is_ident(s):
    return re.fullmatch(r"[A-Za-z_][A-Za-z0-9_]*", s) is not None and s not in KEYWORDS and s != "_"


GENERIC = {"Gen": ("<T>", "<T>"), "GenA": ("<T, const N: usize>", "<T, N>"), "GenE": ("<T>", "<T>")}
known, out = {}, []


def has_zero(t):
    k = t["k"]
    if k == "prim":
        return not t["p"].startswith("nz_")
    if k in ("unit", "opt", "vec"):
        return True
    if k == "arr":
        return has_zero(t["t"])
    if k == "tup":
        return all(has_zero(x) for x in t["ts"])
    if k == "struct":
        return all(has_zero(f["t"]) for f in t["fs"])
    return False


def rust(t):
    """The Rust type, defining it when it is derived."""
    k = t["k"]
    if k == "prim":
        return PRIM[t["p"]]
    if k == "unit":
        return "()"
    if k == "opt":
        return "Option<%s>" % rust(t["t"])
    if k == "vec":
        return "Vec<%s>" % rust(t["t"])
    if k == "arr":
        return "[%s; %d]" % (rust(t["t"]), t["n"])
    if k == "tup":
        return "(%s)" % ", ".join(rust(x) for x in t["ts"])
    name = t["name"] if is_ident(t["name"]) else "E_" + re.sub(r"\W", "_", t["name"])
    if name in GENERIC:
        return generic(name, t)
    d = json.dumps(t, sort_keys=True)
    if name in known:
        assert known[name] == d, "two types named " + name
        return name
    known[name] = d
    (struct if k == "struct" else enum)(name, t)
    return name


def generic(name, t):
    if name == "Gen":
        return "Gen<%s>" % rust(t["fs"][0]["t"])
    if name == "GenA":
        a = t["fs"][0]["t"]
        return "GenA<%s, %d>" % (rust(a["t"]), a["n"])
    return "GenE<%s>" % rust(t["vs"][1]["fs"][0]["t"])


def fields(name, fs):
    """Identifiers and declarations of fields."""
    ids, decls = [], []
    for i, f in enumerate(fs):
        attrs = []
        ty = f["ty"] if "ty" in f else rust(f["t"])
        if f["m"] == "flatten":
            ident = "inner_%d" % i
            attrs.append("flatten")
        else:
            direct = is_ident(f["n"]) and (name in ("Hygiene", "Mixed") or i % 3 != 1)
            ident = f["n"] if direct else "renamed%d" % i
            if not direct:
                attrs.append("rename = " + lit(f["n"]))
            if f["m"] == "default":
                attrs.append("default")
        if f["px"]:
            attrs.append("proxy = " + ty)
            ty = "Px<%s>" % ty
        # attributes may be given together or one by one
        if i % 2 == 0 and attrs:
            a = "#[serde(%s)] " % ", ".join(attrs)
        else:
            a = "".join("#[serde(%s)] " % x for x in attrs)
        ids.append(ident)
        decls.append("%spub %s: %s" % (a, ident, ty))
    assert len(set(ids)) == len(ids), (name, ids)
    return ids, decls


def proxied(fs):
    return any(f["px"] for f in fs)


def struct(name, t):
    ids, decls = fields(name, t["fs"])
    derives = ["Deserialize"] if proxied(t["fs"]) else ["Serialize", "Deserialize"]
    if all(has_zero(f["t"]) for f in t["fs"]):
        derives.append("Default")
    g, u = GENERIC.get(name, ("", ""))
    out.append("#[derive(%s)]\npub struct %s%s {\n%s}" % (", ".join(derives), name, g, "".join("    %s,\n" % d for d in decls)))
    b = g.replace("<T", "<T: Abs")
    out.append("impl%s Abs for %s%s {\n    fn to_a(&self) -> A {\n        A::Rec(vec![%s])\n    }\n"
               "    fn of_a(a: &A) -> Self {\n        let A::Rec(v) = a else { bad(a) };\n        let _ = v;\n        Self { %s }\n    }\n}"
               % (b, name, u, ", ".join("self.%s.to_a()" % i for i in ids),
                  ", ".join("%s: Abs::of_a(&v[%d])" % (i, n) for n, i in enumerate(ids))))


def enum(name, t):
    attrs = []
    if name != t["name"]:
        attrs.append("rename = " + lit(t["name"]))
    if t["tag"] != "<none>":
        attrs.append("tag = " + lit(t["tag"]))
    unit = all(v["k"] == "unit" for v in t["vs"])
    decl, arms_abs, arms_con = [], [], []
    for i, v in enumerate(t["vs"]):
        va = []
        direct = is_ident(v["n"]) and i % 3 != 1
        ident = v["n"] if direct else "V%d" % i
        if not direct:
            va.append("rename = " + lit(v["n"]))
        if v["x"] >= 0:
            va.append("reindex = %d" % v["x"])
        if v["k"] == "inner":
            va.append("transparent")
        body = ""
        if v["k"] == "unit":
            arms_abs.append("Self::%s => A::Var(%d, vec![])" % (ident, i + 1))
            arms_con.append("%d => Self::%s" % (i + 1, ident))
        elif v["k"] == "inner":
            ty = v["fs"][0].get("ty") or rust(v["fs"][0]["t"])
            if i % 2:
                body = "(%s)" % ty
                arms_abs.append("Self::%s(x) => A::Var(%d, vec![x.to_a()])" % (ident, i + 1))
                arms_con.append("%d => Self::%s(Abs::of_a(&v[0]))" % (i + 1, ident))
            else:
                body = " { inner: %s }" % ty
                arms_abs.append("Self::%s { inner } => A::Var(%d, vec![inner.to_a()])" % (ident, i + 1))
                arms_con.append("%d => Self::%s { inner: Abs::of_a(&v[0]) }" % (i + 1, ident))
        else:
            ids, decls = fields(name, v["fs"])
            assert not proxied(v["fs"])
            body = " { %s }" % ", ".join(d.replace("] pub ", "] ").removeprefix("pub ") for d in decls)
            arms_abs.append("Self::%s { %s } => A::Var(%d, vec![%s])" % (
                ident, ", ".join("%s: b%d" % (f, n) for n, f in enumerate(ids)), i + 1,
                ", ".join("b%d.to_a()" % n for n in range(len(ids)))))
            arms_con.append("%d => Self::%s { %s }" % (
                i + 1, ident, ", ".join("%s: Abs::of_a(&v[%d])" % (f, n) for n, f in enumerate(ids))))
        d = " = %d" % v["d"] if v["d"] >= 0 else ""
        decl.append("    %s%s%s%s,\n" % ("#[serde(%s)] " % ", ".join(va) if va else "", ident, body, d))
    g, u = GENERIC.get(name, ("", ""))
    head = ""
    if not unit and any(v["d"] >= 0 for v in t["vs"]):
        head = "#[repr(u32)]\n"
    out.append("#[derive(Serialize, Deserialize)]\n%s%spub enum %s%s {\n%s}" % (
        head, "#[serde(%s)]\n" % ", ".join(attrs) if attrs else "", name, g, "".join(decl)))
    b = g.replace("<T", "<T: Abs")
    out.append("impl%s Abs for %s%s {\n    fn to_a(&self) -> A {\n        match self {\n%s        }\n    }\n"
               "    fn of_a(a: &A) -> Self {\n        let A::Var(i, v) = a else { bad(a) };\n        let _ = v;\n        match i {\n%s"
               "            _ => bad(a),\n        }\n    }\n}"
               % (b, name, u, "".join("            %s,\n" % a for a in arms_abs), "".join("            %s,\n" % a for a in arms_con)))


def plain(n, ty, m="plain"):
    return {"n": n, "ty": ty, "t": {"k": "prim", "p": "nz_u8"}, "m": m, "px": False}


# the generic types themselves
struct("Gen", {"fs": [plain("g", "T"), plain("h", "Leaf")]})
struct("GenA", {"fs": [plain("xs", "[T; N]"), plain("ys", "Vec<T>", "default"), plain("z", "T")]})
enum("GenE", {"name": "GenE", "tag": "gtag", "vs": [
    {"n": "N", "d": -1, "x": -1, "k": "unit", "fs": []},
    {"n": "F", "d": -1, "x": -1, "k": "fields", "fs": [plain("g", "T"), plain("o", "Option<T>")]},
    {"n": "I", "d": -1, "x": -1, "k": "inner", "fs": [plain("inner", "T")]}]})

entries = []
for l in sys.stdin:
    l = l.strip()
    if not l:
        continue
    e = json.loads(l)
    if "p" in e:
        continue
    ty = rust(e["t"])
    how = "r" if e["proxied"] else "rw"
    desc = json.dumps(e["t"], sort_keys=True, ensure_ascii=True, separators=(",", ":"))
    entries.append("    %s::<%s>(%d, r##\"%s\"##),\n" % (how, ty, e["i"], desc))
print("// Generated by gen_types.py from spec/CodecTypes.tla; do not edit.")
print("use crate::abs::*;\nuse crate::run::{r, rw, Entry};\nuse serdere::{Deserialize, Serialize};\n")
print("\n\n".join(out))
n = 0
parts = [entries[i:i + 40] for i in range(0, len(entries), 40)]
for k, p in enumerate(parts):
    print("\nfn part%d(v: &mut Vec<Entry>) {\n    v.extend([\n%s    ]);\n}" % (k, "".join(p)))
print("\npub fn registry() -> Vec<Entry> {\n    let mut v = Vec::new();\n%s    v\n}" % "".join("    part%d(&mut v);\n" % k for k in range(len(parts))))
