from hypothesis import strategies as st

from .. import defs, engine, gen, sources
from ..gen import chance, num, pick

POOL = [s for s in sources.SOURCES]
PROBE = {"ty": "kit::ProbeErr", "vals": ["kit::ProbeErr(31)"], "addr": ["kit::addr(s)"], "dyn": "s", "down": "kit::ProbeErr", "cls": "plain"}
FAIL = {"ty": "kit::FailErr", "vals": ['kit::FailErr("pp")'], "addr": ["kit::addr(s)"], "dyn": "s", "down": "kit::FailErr", "cls": "plain"}
POOL = POOL + [PROBE] * 3 + [FAIL]


def tvariant(draw, name):
    shape = pick(draw, ["tuple", "named"])
    f = sources.source_field(draw, optional=False, pool=POOL)
    f["name"] = pick(draw, ["source", "e", "inner", "r#fn", "r#source", "source_", "x"]) if shape == "named" else None
    if chance(draw, 1, 3):
        f["attrs"] = ["#[from]"]
    return {"name": name, "shape": shape, "fields": [f], "how": "transparent", "msg": {"kind": "transparent"}}


def plain(draw, name):
    shape = pick(draw, ["tuple", "named", "unit"])
    if shape == "unit":
        return {"name": name, "shape": shape, "fields": [], "how": "none", "msg": {"kind": "text"}}
    f = sources.source_field(draw)
    f["attrs"] = ["#[source]"]
    f["name"] = "e" if shape == "named" else None
    return {"name": name, "shape": shape, "fields": [f], "how": "source", "msg": {"kind": "text"}}


def case(draw):
    if chance(draw, 1, 2):
        c = {"kind": "struct", "top": False, "variants": [tvariant(draw, None)]}
    else:
        vs = [(plain if chance(draw, 1, 3) else tvariant)(draw, n) for n in gen.names(draw, gen.many(draw, 1, 4), defs.VNAMES)]
        c = {"kind": "enum", "variants": vs, "top": chance(draw, 1, 4)}
    seen = set()
    for v in c["variants"]:
        for f in v["fields"]:
            if f["attrs"] == ["#[from]"]:
                key = sources.canon(f["bare"])
                if key in seen:
                    f["attrs"] = []
                seen.add(key)
    return defs.dress(draw, c, marks=False)


class C07(engine.Prop):
    id = "C07"
    title = "#[error(transparent)] forwards Display (with its formatter) and source() to the only field"
    rule = "the inner error has a source of its own, shows its formatter state, or is dynamically typed"
    per_worker = {"quick": 450, "thorough": 1500}
    rounds = {"quick": 3, "thorough": 14}

    def strategy(self):
        return st.composite(case)()

    def emit(self, c, mode, cfg):
        def attr(v):
            if v["msg"]["kind"] == "transparent":
                return "" if c["top"] else "#[error(transparent)]"
            return '#[error("text")]'

        out = [defs.decl(c, mode, attr=attr, top="#[error(transparent)]" if c["top"] else "")]
        E = "std::error::Error"
        disp, src = [], []
        for v in c["variants"]:
            p = gen.pattern(defs.path(c, v), v["fields"])
            if v["how"] == "transparent":
                disp.append(f"        {p} => std::fmt::Display::fmt(r0, f),")
                src.append(f"        {p} => match {sources.src_expr(v['fields'][0], 'r0')} {{ Some(e) => {E}::source(e), None => None }},")
            else:
                disp.append(f'        {p} => f.write_str("text"),')
                src.append(f"        {p} => {sources.src_expr(v['fields'][0], 'r0') if v['fields'] else 'None'},")
        out.append("fn want(v: &T, f: &mut kit::Fmt) -> kit::FmtResult {\n    match v {\n" + "\n".join(disp) + "\n    }\n}")
        out.append(f"fn want_src(v: &T) -> Option<&(dyn {E} + 'static)> {{\n    match v {{\n" + "\n".join(src) + "\n    }\n}")
        if mode == "hand":
            out.append("impl std::fmt::Display for T { fn fmt(&self, f: &mut kit::Fmt) -> kit::FmtResult { want(self, f) } }")
            out.append(f"impl {E} for T {{ fn source(&self) -> Option<&(dyn {E} + 'static)> {{ want_src(self) }} }}")
            out.append(sources.hand_froms(c, defs.path))
        out.append("pub fn run(cx: &mut kit::Cx) {")
        for i, (v, e) in enumerate(defs.values(c)):
            out.append(f"    {{ let v = {e}; let w = kit::RefFmt(|f: &mut kit::Fmt| want(&v, f));")
            out.append(f'      cx.show("message {i}", &v, &w); cx.faults("message {i}", &v, &w);')
            out.append(f"      let got = {E}::source(&v); let want = want_src(&v);")
            if v["how"] == "transparent":
                out.append(f'      cx.source("value {i}", got, want, want.map(|e| vec![kit::addr(e)]));')
                out.append(f'      cx.eq("chain {i}", kit::rest_of(&v), {sources.src_expr(v["fields"][0], pat0(c, v))}.map_or(vec![], |e| kit::rest_of(e)));')
            else:
                out.append(f'      cx.source("value {i}", got, want, want.map(|e| vec![kit::addr(e)]).map(|_| vec![]));')
            out.append("    }")
        out.append("}")
        return "\n".join(out)

    def nontrivial(self, c):
        return any(
            v["how"] == "transparent"
            and (v["fields"][0]["t"]["cls"] != "plain" or v["fields"][0]["bare"] in ("kit::Node", "kit::Link", "kit::ProbeErr"))
            for v in c["variants"]
        )

    def labels(self, c):
        out = {c["kind"]}
        if c["top"]:
            out.add("enum-level transparent")
        for v in c["variants"]:
            out.add("how: " + v["how"])
            if v["how"] == "transparent":
                out.add("class " + v["fields"][0]["t"]["cls"])
                if v["fields"][0]["attrs"]:
                    out.add("with #[from]")
        return sorted(out | defs.dress_labels(c))


def pat0(c, v):
    """An expression for a reference to the only field of the value `v`."""
    p = gen.pattern(defs.path(c, v), v["fields"])
    return f"(match &v {{ {p} => r0, _ => unreachable!() }})"


PROP = C07()
