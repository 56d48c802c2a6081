"""Definitions that combine all attributes: messages, sources, conversions, transparent, paths, generics.

program() gives the definition and its checks against the handwritten oracle.
"""

from . import defs, gen, sources
from .gen import chance, num, pick

TYPES = [t for t in gen.TYPES if t[3] not in ("path",)]
E = "std::error::Error"


def add_generic(draw, v, params):
    for i, f in enumerate(v["fields"]):
        if f["cls"] in ("src", "bt"):
            continue
        if not chance(draw, 1, 2):
            continue
        k = num(draw, 0, 4)
        if k <= 1:
            params["P"] = "P = kit::AllFmt"
            f.update(ty="P", caps=gen.INTS + "p", cls="path", vals=["kit::AllFmt(41)", "kit::AllFmt(42)"])
        elif k == 2:
            params["P"] = "P = kit::AllFmt"
            f.update(ty="kit::Gen<P>", caps=gen.INTS + "p", cls="path", vals=["kit::Gen(kit::AllFmt(43))"] * 2)
        elif k == 3:
            params["P"] = "P = kit::AllFmt"
            params["N"] = "const N: usize = 2"
            f.update(ty="[P; N]", caps="", cls="path", vals=["[kit::AllFmt(44), kit::AllFmt(45)]"] * 2)
        else:
            params["Q"] = "Q = kit::NoFmtDebug"
            f.update(ty="std::marker::PhantomData<Q>", caps="", cls="path", vals=["std::marker::PhantomData"] * 2)


def variant(draw, name, params, kinds=("msg",) * 6 + ("transparent", "path"), types=TYPES, rich=True, from_ok=True, generic=False, pool=sources.SOURCES, args=True):
    kind = pick(draw, [k for k in kinds if k != "path" or name])
    if kind == "transparent":
        shape = pick(draw, ["tuple", "named"])
        f = sources.source_field(draw, optional=False, pool=pool)
        f["name"] = None if shape == "tuple" else gen.names(draw, 1, gen.NAMES + ["source"])[0]
        if from_ok and chance(draw, 1, 2):
            f["attrs"] = ["#[from]"]
        return {"name": name, "shape": shape, "fields": [f], "msg": {"kind": "transparent"}, "src": None}
    shape, fields = gen.shape_fields(draw, types, 4)
    src = None
    if shape != "unit" and chance(draw, 1, 2):
        f = sources.source_field(draw, pool=pool)
        f["caps"] = "" if f["opt"] else "D"
        how = pick(draw, ["source", "from", "name"])
        if how == "name" and shape == "tuple" or how == "from" and not from_ok:
            how = "source"
        if how == "from":
            fields = [f]
            f["attrs"] = ["#[from]"]
        else:
            fields.insert(num(draw, 0, len(fields)), f)
            f["attrs"] = ["#[source]"] if how == "source" else []
        src = fields.index(f)
        f["name"] = None
        if shape == "named":
            free = [n for n in gen.NAMES + ["source"] if all(n != g["name"] and gen.unraw(n) != gen.unraw(g["name"] or "") for g in fields)]
            if how == "name":
                f["name"] = "source"
                for g in fields:
                    if g is not f and gen.unraw(g["name"]) == "source":
                        g["name"] = "no_source"
            else:
                f["name"] = pick(draw, free)
    v = {"name": name, "shape": shape, "fields": fields, "src": src}
    if generic:
        add_generic(draw, v, params)
    if kind == "path" and len(fields) <= 4:
        v["msg"] = {"kind": "path", "path": pick(draw, ["kit::fmt%d", "::kit::fmt%d"]) % len(fields)}
    else:
        v["msg"] = gen.message(draw, shape, fields, rich=rich, args=args, selfdebug=not generic, hide=("touchy", "fail"))
    return v


def container(draw, max_variants=4, generics=True, **kw):
    params = {}
    g = generics and chance(draw, 1, 3)
    if chance(draw, 3, 5):
        vs = [variant(draw, nm, params, generic=g, from_ok=True, **kw) for nm in gen.names(draw, num(draw, 9, 12) if chance(draw, 1, 60) else num(draw, 1, max_variants), defs.VNAMES)]
        c = {"kind": "enum", "variants": vs}
    else:
        c = {"kind": "struct", "variants": [variant(draw, None, params, generic=g, from_ok=True, **kw)]}
    order = ["N", "P", "Q"]
    c["params"] = [params[k] for k in ("P", "Q", "N") if k in params]
    seen = set()
    for v in c["variants"]:
        for f in v["fields"]:
            if f["attrs"] == ["#[from]"]:
                key = sources.canon(f["bare"])
                if key in seen:
                    f["attrs"] = ["#[source]"] if v["msg"]["kind"] != "transparent" else []
                seen.add(key)
    return c


def attr(v):
    if v["msg"]["kind"] == "path":
        return f"#[error(fmt = {v['msg']['path']})]"
    return defs.attr(v)


def body(v):
    if v["msg"]["kind"] == "path":
        return f"            f.write_str(\"fmt{len(v['fields'])}\")"
    return defs.body(v)


def generics(c):
    return "<" + ", ".join(c["params"]) + ">" if c.get("params") else ""


def decl(c, mode, attr=attr):
    return defs.decl(c, mode, attr=attr).replace("pub struct T", "pub struct T" + generics(c), 1).replace("pub enum T", "pub enum T" + generics(c), 1)


def want_src(c):
    out = [f"fn want_src(v: &T) -> Option<&(dyn {E} + 'static)> {{", "    match v {"]
    for v in c["variants"]:
        p = gen.pattern(defs.path(c, v), v["fields"])
        if v["msg"]["kind"] == "transparent":
            out.append(f"        {p} => match {sources.src_expr(v['fields'][0], 'r0')} {{ Some(e) => {E}::source(e), None => None }},")
        elif v["src"] is not None:
            out.append(f"        {p} => {sources.src_expr(v['fields'][v['src']], 'r%d' % v['src'])},")
        else:
            out.append(f"        {p} => None,")
    out.append("    }\n}")
    return "\n".join(out)


def oracle(c, mode):
    out = [defs.want_fn(c, body), want_src(c)]
    if mode == "hand":
        out.append("impl std::fmt::Display for T { fn fmt(&self, f: &mut kit::Fmt) -> kit::FmtResult { want(self, f) } }")
        out.append(f"impl {E} for T {{ fn source(&self) -> Option<&(dyn {E} + 'static)> {{ want_src(self) }} }}")
        out.append(sources.hand_froms(c, defs.path))
    return "\n".join(out)


def run_fn(c, faults=True):
    out = ["pub fn run(cx: &mut kit::Cx) {"]
    for i, (v, e) in enumerate(defs.values(c)):
        out.append(f"    {{ let v: T = {e}; let w = kit::RefFmt(|f: &mut kit::Fmt| want(&v, f));")
        out.append(f'      cx.show("message {i}", &v, &w);' + (f' cx.faults("message {i}", &v, &w);' if faults else ""))
        out.append(f'      cx.source("source {i}", {E}::source(&v), want_src(&v), None);')
        out.append(f'      cx.eq("chain {i}", kit::rest_of(&v), {{ let mut c = vec![]; let mut e = want_src(&v); while let Some(x) = e {{ c.push(kit::msg_of(x)); e = x.source(); }} c }});')
        out.append("    }")
    k = 0
    for v in c["variants"]:
        for f in v["fields"]:
            if sources.is_from(f):
                # The second value, through From, against the value built by hand.
                val = f["vals"][0]
                if f["opt"]:
                    if val == "None":
                        continue
                    val = val[5:-1]
                whole = gen.construct(defs.path(c, v), v["fields"], 0)
                out.append(f"    {{ let b: {f['bare']} = {val}; let g: T = From::from(b); let w: T = {whole};")
                out.append(f'      cx.eq("from {k}", format!("{{g:?}}"), format!("{{w:?}}")); cx.show("from {k}", &g, &w); }}')
                k += 1
    out.append("}")
    return "\n".join(out)


def program(c, mode, faults=True):
    return "\n".join(["use kit::{raw, MSG, W9};", decl(c, mode), oracle(c, mode), run_fn(c, faults)])


def nontrivial(c):
    return any(v["src"] is not None or v["msg"]["kind"] != "msg" or any("arg" in s for s in v["msg"]["segs"]) for v in c["variants"])


def labels(c):
    out = {c["kind"]}
    if c.get("params"):
        out.add("generic")
    for v in c["variants"]:
        out.add("shape " + v["shape"])
        out.add("message: " + v["msg"]["kind"])
        if v["src"] is not None:
            out.add("source: " + v["fields"][v["src"]]["t"]["cls"] + (" in Option" if v["fields"][v["src"]]["opt"] else ""))
        if any(sources.is_from(f) for f in v["fields"]):
            out.add("from")
        if v["msg"]["kind"] == "msg":
            if v["msg"]["pos"] or v["msg"]["named"]:
                out.add("arguments")
            for f in v["fields"]:
                if f["name"] and f["name"].startswith("r#"):
                    out.add("raw field name")
    return sorted(out)
