"""Definitions of error types with messages, shared by the formatting properties."""

from . import gen, sources
from .gen import chance, num, pick


def variant(draw, name, rich=False, args=True, types=gen.TYPES, shapes=("named", "tuple", "unit"),
            max_fields=5, **kw):  # fmt: skip
    shape, fields = gen.shape_fields(draw, types, max_fields, shapes)
    return {
        "name": name, "shape": shape, "fields": fields,
        "msg": gen.message(draw, shape, fields, rich=rich, args=args, **kw),
    }  # fmt: skip


VNAMES = ["A", "B", "Other", "r#Fn", "Error", "Ok", "Some", "None", "Io", "lower", "V1", "TheConfigurationFileThatCouldNotBeRead", "X", "r#Struct", "Ünïcode", "T", "Self_"]


def container(draw, max_variants=3, **kw):
    if chance(draw, 1, 2):
        n = num(draw, 1, max_variants)
        return {"kind": "enum", "variants": [variant(draw, nm, **kw) for nm in gen.names(draw, n, VNAMES)]}
    return {"kind": "struct", "variants": [variant(draw, None, **kw)]}


def path(case, v):
    return "T" if case["kind"] == "struct" else "T::" + v["name"]


def decl(case, mode, attr=None, top=""):
    attr = attr or globals()["attr"]
    derive = mode == "derive"
    d = case.get("dress") or {}
    params, where = d.get("params", ""), d.get("where", "")
    name = ("TG" if params else "T") + params
    noise = [a for a in d.get("noise", []) if derive or not a.startswith("#[from")]
    if noise[:1] and noise[0].startswith("#[from"):
        noise = ["", *noise]
    out = [*noise[:1], "#[derive(Debug, thiserror::Error)]" if derive else "#[derive(Debug)]", *noise[1:2]]
    if case["kind"] == "struct":
        v = case["variants"][0]
        if derive:
            out.append(attr(v))
        out += noise[2:]
        fs = gen.fields_decl(v["shape"], v["fields"], derive)
        out.append(f"pub struct {name}{where}{fs}" if v["shape"] == "named" else f"pub struct {name}{fs}{where};")
    else:
        if derive and top:
            out.append(top)
        out += noise[2:]
        out.append(f"pub enum {name}{where} {{")
        for i, v in enumerate(case["variants"]):
            if d.get("ghost") == i:
                out.append('    #[cfg(any())] #[error("{nothing}")] Ghost(Missing),')
            out += ["    " + a for a in v.get("noise", []) if derive or not a.startswith("#[from")]
            if derive:
                out.append("    " + attr(v))
            out.append(f"    {v['name']}{gen.fields_decl(v['shape'], v['fields'], derive, vis='')},")
        out.append("}")
    if params:
        out.append(f"pub type T = TG{d['args']};")
    return "\n".join(out)


# ---------------------------------------------------------------------------
# Dress: what a definition may have besides, without any effect on what is checked. Fields
# become generic where nothing but the message needs a bound for them, errors are marked as
# sources, attributes of no concern are added. T is then an alias of an instance.

NOISE = ['#[doc = "{x} d"]', "/** {d} } */", "#[allow(dead_code)]", "#[cfg(all())]", "#[cfg_attr(all(), doc = \"x\")]", "#[deprecated]",
         '#[cfg_attr(any(), error("no"))]', "#[from(skip)]", '#[from = "x"]', "#[warn(clippy::all)]"]  # fmt: skip
PNAMES = ["G", "E", "Err", "U0", "Display", "Error", "X", "r#Gen", "Fmt", "A"]
INNER = ("Box<", "Vec<", "std::sync::Arc<", "kit::GLeaf<") + tuple(sorted({o.split("{}")[0] for o in sources.OPTION}))


def exprs_of(msg):
    return [t["f"] for a in msg.get("pos", []) + msg.get("named", []) for t in a["e"] if isinstance(t, dict)]


def dress(draw, case, top_msg=None, marks=True, generic=True):
    """Adds to the case; top_msg is the message that variants of kind inherit have."""
    if not chance(draw, 2, 3):
        return case
    d = {"noise": list(dict.fromkeys(pick(draw, NOISE) for _ in range(pick(draw, [0, 0, 1, 2, 3]))))}
    life, types, const = False, [], {}
    taken = set()
    seen_from = set()
    names_left = gen.names(draw, 4, PNAMES)
    msgs = [v["msg"] for v in case["variants"]] + [top_msg or {}]
    debug_self = any(s.get("arg", [0])[0] == "self" for m in msgs for s in m.get("segs", []))
    for v in case["variants"]:
        m = v["msg"]
        if m["kind"] == "inherit":
            m = top_msg or {"kind": "inherit"}
        free = generic and m["kind"] in ("msg", "transparent", "text")
        if v["msg"]["kind"] == "inherit" and exprs_of(m):
            free = False
        fixed = set(exprs_of(m))
        used = {s["arg"][1] for s in m.get("segs", []) if s.get("arg", [0])[0] == "field"}
        if v["msg"]["kind"] == "inherit":
            used = set(range(len(v["fields"])))
        v["noise"] = [pick(draw, NOISE)] if v["name"] and chance(draw, 1, 5) else []
        # Marks.
        errs = [i for i, f in enumerate(v["fields"]) if f["cls"] == "err" and not f["attrs"]]
        if marks and errs and m["kind"] != "transparent" and chance(draw, 1, 2):
            f = v["fields"][pick(draw, errs)]
            if len(v["fields"]) == 1 and f["ty"] not in seen_from and chance(draw, 1, 2):
                seen_from.add(f["ty"])
                f["attrs"] = ["#[from]"]
            elif f["name"] and v["msg"]["kind"] != "inherit" and chance(draw, 1, 3) and not any(gen.unraw(g["name"]) == "source" for g in v["fields"]):
                f["name"] = "source"
            else:
                f["attrs"] = ["#[source]"]
        for i, f in enumerate(v["fields"]):
            if chance(draw, 1, 6):
                f["noise"] = [pick(draw, NOISE)]
            if chance(draw, 1, 10):
                f["ghost"] = 1
                if f["name"] and any(gen.unraw(g["name"]) == "ghost" or "ghost" in g for g in v["fields"] if g is not f):
                    del f["ghost"]
            if case["kind"] == "struct" and chance(draw, 1, 6):
                f["vis"] = pick(draw, ["", "pub(crate) ", "pub(self) ", "pub(in self) "])
            if not free or i in fixed or sources_from(f) or not chance(draw, 1, 3):
                continue
            ty = f["ty"]
            if ty.startswith("&'static ") and f["cls"] not in ("path", "src", "err"):
                f["gty"] = ty.replace("'static", "'l")
                life = True
                continue
            if debug_self or f["cls"] in ("path", "unsized", "touchy") or f.get("unsized"):
                continue
            if ty == "[u8; 3]":
                f["gty"], const["N"] = "[u8; N]", "3"
                continue
            if f["cls"] == "src" and (f["t"]["down"] != f["bare"] or f["bare"].startswith(("Box", "std::sync", "std::rc"))):
                continue
            if m["kind"] == "transparent" and ("dyn" in ty or "anyhow" in ty or ty.startswith("Box")):
                continue
            if i not in used and f["cls"] == "tup":
                pass
            inst, form = ty, "{}"
            for pre in INNER:
                if ty.startswith(pre) and "dyn" not in ty and (f.get("opt") or chance(draw, 2, 3)):
                    end = ",>" if ty.endswith(",>") else ">"
                    inst, form = ty[len(pre):-len(end)], pre + "{}" + end
                    break
            p = next((n for n, t in types if t == inst and chance(draw, 1, 2)), None)
            if p is None:
                if len(types) == 3:
                    continue
                p = names_left[len(types)]
                types.append((p, inst))
            f["gty"] = form.format(p)
    if generic and chance(draw, 1, 8):
        const["K"] = "7"
    if life or types or const:
        default = chance(draw, 1, 6)
        ps = (["'l"] if life else []) + [n + (" = ()" if default else "") for n, _ in types] + [f"const {k}: usize" + (" = 1" if default else "") for k in const]
        d["params"] = "<" + ", ".join(ps) + pick(draw, ["", ","]) + ">"
        d["args"] = "<" + ", ".join((["'static"] if life else []) + [t for _, t in types] + list(const.values())) + ">"
        ws = ["u8: Copy", "for<'z> &'z u8: Copy"] + [f"{n}: 'static" for n, _ in types] + [f"{n}: Sized" for n, _ in types] + (["'l: 'l"] if life else [])
        if chance(draw, 1, 3):
            d["where"] = " where " + pick(draw, ws) + pick(draw, ["", ","])
    if case["kind"] == "enum" and case["variants"] and chance(draw, 1, 8):
        d["ghost"] = num(draw, 0, len(case["variants"]) - 1)
    case["dress"] = d
    return case


def sources_from(f):
    return any("from" in a for a in f["attrs"])


def dress_labels(case):
    d = case.get("dress")
    if not d:
        return set()
    out = {"dressed"}
    if d.get("params"):
        out.add("dressed with parameters")
    if any(f.get("gty") for v in case["variants"] for f in v["fields"]):
        out.add("a field is generic")
    if any(f["cls"] == "err" and (f["attrs"] or f["name"] == "source") for v in case["variants"] for f in v["fields"]):
        out.add("a field is the source")
    return out


def want_fn(case, body=None):
    body = body or globals()["body"]
    out = ["fn want(v: &T, f: &mut kit::Fmt) -> kit::FmtResult {", "    match v {"]
    for v in case["variants"]:
        out.append(f"        {gen.pattern(path(case, v), v['fields'])} => {{")
        out.append(body(v))
        out.append("        }")
    out += ["    }", "}"]
    return "\n".join(out)


HAND = """impl std::fmt::Display for T {
    fn fmt(&self, f: &mut kit::Fmt) -> kit::FmtResult { want(self, f) }
}
impl std::error::Error for T {}"""


def values(case):
    out = []
    for v in case["variants"]:
        for w in range(2 if v["fields"] else 1):
            out.append((v, gen.construct(path(case, v), v["fields"], w)))
    return out


def program(case, mode, checks=("show1",), attr=None, body=None):
    out = ["use kit::{raw, MSG, W9};", decl(case, mode, attr), want_fn(case, body)]
    if mode == "hand":
        out.append(HAND)
    out.append("pub fn run(cx: &mut kit::Cx) {")
    for i, (v, e) in enumerate(values(case)):
        out.append(f"    {{ let v = {e}; let w = kit::RefFmt(|f: &mut kit::Fmt| want(&v, f));")
        for c in checks:
            out.append(f'      cx.{c}("value {i}", &v, &w);')
        out.append("    }")
    out.append("}")
    return "\n".join(out)


def segs(case):
    return [(v, s) for v in case["variants"] for s in v["msg"]["segs"]]


def msg_labels(case):
    out = {case["kind"], *dress_labels(case)}
    for v in case["variants"]:
        out.add("shape " + v["shape"])
        m = v["msg"]
        out.add("literal " + m["style"][0])
        refs = [s["arg"][1] for s in m["segs"] if "arg" in s and s["arg"][0] == "field"]
        if len(refs) != len(set(refs)):
            out.add("repeated field reference")
        if m["pos"]:
            out.add("positional args")
        if m["named"]:
            out.add("named args")
        for a in m["named"]:
            if any(f["name"] and gen.unraw(f["name"]) == gen.unraw(a["n"]) for f in v["fields"]):
                out.add("named arg shadows a field")
        for s in m["segs"]:
            if "arg" not in s:
                continue
            out.add("arg " + s["arg"][0])
            sp = s["spec"]
            if s["arg"][0] == "field":
                f = v["fields"][s["arg"][1]]
                out.add("trait " + (sp["ty"] or "Display"))
                out.add("field class " + f["cls"])
                if f["name"] and f["name"].startswith("r#"):
                    out.add("raw field name")
                if f["name"] and not f["name"].isascii():
                    out.add("non-ASCII field name")
            for k in ("width", "prec", "fill", "sign", "alt", "zero", "ws"):
                if sp.get(k):
                    out.add("spec " + k + (" " + sp[k][0] if k in ("width", "prec") else ""))
    return sorted(out)


# ---------------------------------------------------------------------------
# Variants of other kinds: transparent, fmt = path, inherit.

ERR_TYPES = [
    ("kit::Leaf", ["kit::Leaf(1)", "kit::Leaf(2)"]),
    ("kit::Node", ["kit::Node(3, kit::Leaf(4))"]),
    ("kit::Link", ["kit::Link(5, Some(Box::new(kit::Leaf(6))))", "kit::Link(7, None)"]),
    ("kit::ProbeErr", ["kit::ProbeErr(8)"]),
    ("kit::FailErr", ['kit::FailErr("part")', 'kit::FailErr("")']),
    ("kit::GLeaf<u8>", ["kit::GLeaf(1, 9)"]),
    ("Box<kit::Node>", ["Box::new(kit::Node(10, kit::Leaf(11)))"]),
    ("Box<dyn std::error::Error>", ["Box::new(kit::Leaf(12))", "Box::new(kit::ProbeErr(13))"]),
    ("Box<dyn std::error::Error + Send + Sync>", ["Box::new(kit::Node(14, kit::Leaf(15)))"]),
    ("std::io::Error", ["std::io::Error::from(std::io::ErrorKind::NotFound)"]),
    ("std::fmt::Error", ["std::fmt::Error"]),
    ("std::num::ParseIntError", ['"x".parse::<u8>().unwrap_err()']),
    ("kit::anyhow::Error", ["kit::anyhow::Error::new(kit::Node(16, kit::Leaf(17)))", 'kit::anyhow::anyhow!("any")']),
]


def err_field(draw, types=ERR_TYPES, values=2):
    t = pick(draw, types)
    return {"ty": t[0], "caps": "D?", "cls": "err", "vals": [pick(draw, t[1]) for _ in range(values)], "attrs": []}


def transparent_variant(draw, name):
    shape = pick(draw, ["tuple", "named"])
    f = err_field(draw)
    f["name"] = None if shape == "tuple" else gen.names(draw, 1, gen.NAMES + ["source"])[0]
    return {"name": name, "shape": shape, "fields": [f], "msg": {"kind": "transparent"}}


def body(v):
    k = v["msg"]["kind"]
    if k == "msg":
        return gen.msg_oracle(v["msg"], v["fields"])
    if k == "transparent":
        return "            std::fmt::Display::fmt(r0, f)"
    raise ValueError(k)


def attr(v):
    k = v["msg"]["kind"]
    if k == "msg":
        return f"#[error({gen.msg_attr(v['msg'], v['fields'])})]"
    if k == "transparent":
        return "#[error(transparent)]"
    return ""
