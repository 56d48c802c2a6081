from hypothesis import strategies as st

from .. import defs, engine, gen, sources
from ..gen import chance, num, pick

# Fields that must not be taken for the source, though some are errors.
DECOYS = [t for t in gen.TYPES if t[3] in ("int", "string", "opt", "str", "allfmt")] + [
    (s["ty"], "?", s["vals"], "decoy") for s in sources.SOURCES
]
DECOY_NAMES = ["cause", "error", "err", "inner", "src", "r#source", "source_", "Source", "sources", "from", "backtrace",
               "_source", "r#in", "reason", "source1", "sоurce", "transparent", "Option", "r#type", "as_ref", "some"]  # fmt: skip


def variant(draw, name):
    shape = pick(draw, ["named", "named", "tuple", "tuple", "unit"])
    n = 0 if shape == "unit" else gen.many(draw, 0, 3, 60)
    fields = [gen.field(draw, DECOYS) for _ in range(n)]
    hows = ["none"] if shape == "unit" else ["none", "source", "source", "from", "both"]
    if shape == "named":
        hows += ["name", "name", "name+source", "name+from", "source on the field named source"]
    how = pick(draw, hows)
    if how in ("from", "both", "name+from"):
        fields = []
    si = None
    if how != "none":
        f = sources.source_field(draw)
        at = {"source": ["#[source]"], "from": ["#[from]"], "both": pick(draw, [["#[from]", "#[source]"], ["#[source]", "#[from]"]]),
              "name": [], "name+source": ["#[source]"], "name+from": ["#[from]"],
              "source on the field named source": ["#[source]"]}[how]  # fmt: skip
        if chance(draw, 1, 6):
            at = [a.replace("#[", "#[cfg_attr(all(), ").replace("]", ")]") for a in at]
        if chance(draw, 1, 6):
            at = ["/// doc"] + at if False else ["#[doc = \"d\"]"] + at
        f["attrs"] = at
        si = num(draw, 0, len(fields))
        fields.insert(si, f)
    if shape == "named":
        for f, nm in zip(fields, gen.names(draw, len(fields), DECOY_NAMES)):
            f["name"] = nm
        if how in ("name", "name+from", "source on the field named source"):
            # r#source would be the same field name twice
            for f in fields:
                if f["name"] == "r#source":
                    f["name"] = "other"
            fields[si]["name"] = "source"
        elif how == "name+source" and len(fields) > 1:
            # A field named source beside the one marked #[source]: the mark decides.
            j = (si + 1) % len(fields)
            for f in fields:
                if f["name"] == "r#source":
                    f["name"] = "other"
            fields[j]["name"] = "source"
    return {"name": name, "shape": shape, "fields": fields, "how": how, "si": si, "msg": {"kind": "msg"}}


def case(draw):
    if chance(draw, 1, 2):
        vs = [variant(draw, n) for n in gen.names(draw, gen.many(draw, 1, 4), defs.VNAMES)]
        c = {"kind": "enum", "variants": vs}
    else:
        c = {"kind": "struct", "variants": [variant(draw, None)]}
    # At most one From per type.
    seen = set()
    for v in c["variants"]:
        if "from" in v["how"] or v["how"] == "both":
            key = sources.canon(v["fields"][v["si"]]["bare"])
            if key in seen:
                v["fields"][v["si"]]["attrs"] = ["#[source]"]
                v["how"] = "source"
            seen.add(key)
    return defs.dress(draw, c, marks=False)


class C06(engine.Prop):
    id = "C06"
    title = "source() returns exactly the field marked #[source] or #[from], or else the one named source"
    rule = "some variant has a source and another field, or an optional or dynamically typed source"
    per_worker = {"quick": 500, "thorough": 1500}
    rounds = {"quick": 3, "thorough": 14}

    def configs(self):
        return ["stable", "stable", "stable", "synfull"]

    def strategy(self):
        return st.composite(case)()

    def emit(self, c, mode, cfg):
        out = [defs.decl(c, mode, attr=lambda v: '#[error("msg")]')]

        def body(fn):
            arms = []
            for v in c["variants"]:
                p = gen.pattern(defs.path(c, v), v["fields"])
                arms.append(f"        {p} => {fn(v['fields'][v['si']], 'r%d' % v['si']) if v['si'] is not None else 'None'},")
            return "    match v {\n" + "\n".join(arms) + "\n    }"

        out.append("fn want(v: &T) -> Option<&(dyn std::error::Error + 'static)> {\n" + body(sources.src_expr) + "\n}")
        out.append("fn addrs(v: &T) -> Option<Vec<*const ()>> {\n" + body(sources.addr_expr) + "\n}")
        if mode == "hand":
            out.append('impl std::fmt::Display for T { fn fmt(&self, f: &mut kit::Fmt) -> kit::FmtResult { f.write_str("msg") } }')
            out.append("impl std::error::Error for T { fn source(&self) -> Option<&(dyn std::error::Error + 'static)> { want(self) } }")
            out.append(sources.hand_froms(c, defs.path))
        out.append("pub fn run(cx: &mut kit::Cx) {")
        for i, (v, e) in enumerate(defs.values(c)):
            out.append(f"    {{ let v = {e};")
            out.append("      let got = std::error::Error::source(&v); let want = want(&v); let addrs = addrs(&v);")
            out.append(f'      cx.source("value {i}", got, want, addrs);')
            if v["si"] is not None and v["fields"][v["si"]]["t"]["down"]:
                ty = v["fields"][v["si"]]["t"]["down"]
                out.append(f'      cx.ensure("value {i} downcasts to its type", got.map_or(true, |e| e.is::<{ty}>()));')
            out.append(f'      cx.eq("message {i}", v.to_string(), "msg".to_string());')
            out.append("    }")
        out.append("}")
        return "\n".join(out)

    def nontrivial(self, c):
        return any(
            v["si"] is not None
            and (len(v["fields"]) > 1 or v["fields"][v["si"]]["opt"] or v["fields"][v["si"]]["t"]["cls"] != "plain")
            for v in c["variants"]
        )

    def labels(self, c):
        out = {c["kind"]}
        for v in c["variants"]:
            out.add("how: " + v["how"])
            if v["si"] is not None:
                f = v["fields"][v["si"]]
                out.add("type class " + f["t"]["cls"])
                if f["opt"]:
                    out.add("optional")
                    out.update("value " + x[:4] for x in f["vals"])
            elif any(f["cls"] in ("decoy",) for f in v["fields"]):
                out.add("errors that are not the source")
        hows = {v["how"] != "none" for v in c["variants"]}
        if len(hows) == 2:
            out.add("variants with and without a source")
        return sorted(out | defs.dress_labels(c))


PROP = C06()
