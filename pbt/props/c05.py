from hypothesis import strategies as st

from .. import defs, engine, gen
from ..gen import chance, num, pick

CLS = "allfmt int i64 string str vec opt tracer box bool path err".split()
TYPES = [t for t in gen.TYPES if t[3] in CLS]

#: How the path of #[error(fmt = ...)] is written, and where the function lives.
PATHS = ["bare", "self", "module", "generic", "turbofish", "assoc", "qself", "raw", "absolute", "super"]


def fmt_fn(i, form, fields, slf="v"):
    """(path, items, call prefix) of a fmt function for these fields."""
    params = "".join(f"r{k}: &{f['ty']}, " for k, f in enumerate(fields))
    return params


def case(draw):
    n = gen.many(draw, 0, 4, 40)
    top = pick(draw, ["none", "none", "msg", "msg", "msg", "transparent", "fmt"])
    variants = []
    top_def = None
    common = []
    if top == "msg":
        shape = pick(draw, ["named", "named", "tuple", "unit"])
        common = [gen.field(draw, TYPES) for _ in range(0 if shape == "unit" else num(draw, 1, 3))]
        for f, nm in zip(common, gen.names(draw, len(common))):
            f["name"] = nm if shape == "named" else None
        top_def = {
            "shape": shape, "common": common,
            "msg": gen.message(draw, shape, common, rich=chance(draw, 1, 3), hide=("touchy", "fail")),
        }  # fmt: skip
    elif top == "fmt":
        shape = pick(draw, ["named", "tuple", "unit"])
        common = [gen.field(draw, TYPES) for _ in range(0 if shape == "unit" else num(draw, 1, 3))]
        top_def = {"shape": shape, "common": common, "form": pick(draw, PATHS)}
    for i, nm in enumerate(gen.names(draw, n, defs.VNAMES)):
        kinds = ["msg", "transparent", "fmt"]
        if top != "none":
            kinds += ["inherit"] * 4
        k = pick(draw, kinds)
        if k == "msg":
            variants.append(defs.variant(draw, nm, types=TYPES, segs_hi=3))
        elif k == "transparent":
            variants.append(defs.transparent_variant(draw, nm))
        elif k == "fmt":
            shape, fields = gen.shape_fields(draw, TYPES, 4)
            if len(fields) >= 2 and chance(draw, 1, 2):  # same types: the order must be right
                for f in fields[1:]:
                    f.update({k: fields[0][k] for k in ("ty", "caps", "cls")}, vals=list(reversed(fields[0]["vals"])))
            variants.append({"name": nm, "shape": shape, "fields": fields,
                             "msg": {"kind": "fmt", "form": pick(draw, PATHS), "id": i}})  # fmt: skip
        elif top == "transparent":
            v = defs.transparent_variant(draw, nm)
            v["msg"] = {"kind": "inherit"}
            variants.append(v)
        else:
            fields = []
            for f in common:
                vals = pick(draw, [f["vals"], list(reversed(f["vals"]))])
                fields.append({**f, "vals": vals, "attrs": []})
            shape = top_def["shape"]
            if top == "msg" and shape != "unit":
                for j in range(num(draw, 0, 2)):  # fields of the variant's own
                    f = gen.field(draw, TYPES)
                    f["name"] = f"own{j}" if shape == "named" else None
                    fields.append(f)
                if shape == "named" and len(fields) > 1 and chance(draw, 1, 2):
                    fields.reverse()
            elif top == "msg":
                shape = pick(draw, ["unit", "named", "tuple"])
                fields = [gen.field(draw, TYPES) for _ in range(0 if shape == "unit" else num(draw, 0, 2))]
                names_used = {gen.unraw(a["n"]) for a in top_def["msg"]["named"]}
                if top_def["msg"]["pos"]:
                    fields, shape = [], "unit"
                for j, f in enumerate(fields):
                    f["name"] = f"own{j}" if shape == "named" else None
            elif top == "fmt" and shape == "named":
                for j, f in enumerate(fields):
                    f["name"] = pick(draw, ["p", "q", "zz", "r#in", "__f"]) + str(j)
            variants.append({"name": nm, "shape": shape, "fields": fields, "msg": {"kind": "inherit"}})
    c = {"kind": "enum", "top": top, "top_def": top_def, "variants": variants}
    return defs.dress(draw, c, top_msg=top_def["msg"] if top == "msg" else {"kind": top})


def fn_of(ident, form, fields):
    """(path as written in the attribute, items that define it, path to call it from want)."""
    params = "".join(f"r{k}: &{f['ty']}, " for k, f in enumerate(fields))
    show = "".join(f'kit::write!(f, "<{{:?}}>", r{k})?; ' for k in range(len(fields)))
    body = f'{{ kit::log("{ident}"); f.pad("{ident}:")?; {show}Ok(()) }}'
    sig = f"({params}f: &mut kit::Fmt) -> kit::FmtResult {body}"
    if form in ("bare", "self", "super"):
        p = {"bare": ident, "self": f"self::{ident}", "super": f"super::{{M}}::{ident}"}[form]
        return p, f"pub fn {ident}{sig}", ident
    if form == "module":
        return f"m_{ident}::{ident}", f"pub mod m_{ident} {{ use super::*; pub fn {ident}{sig} }}", f"m_{ident}::{ident}"
    if form == "raw":
        return f"m_{ident}::r#fn", f"pub mod m_{ident} {{ use super::*; pub fn r#fn{sig} }}", f"m_{ident}::r#fn"
    if form == "generic":
        return f"{ident}", f"pub fn {ident}<'x, W: std::fmt::Write>({params}f: &mut W) -> kit::FmtResult {{ kit::log(\"{ident}\"); f.write_str(\"{ident}:\")?; {show}Ok(()) }}", ident  # noqa: E501
    if form == "turbofish":
        return f"{ident}::<u8, 3>", f"pub fn {ident}<A: Default + std::fmt::Debug, const N: usize>{sig}", f"{ident}::<u8, 3>"
    if form == "assoc":
        return f"H{ident}::<u8>::go", f"pub struct H{ident}<A>(A); impl<A> H{ident}<A> {{ pub fn go{sig} }}", f"H{ident}::<u8>::go"
    if form == "qself":
        return (f"<u8 as Tr{ident}>::go", f"pub trait Tr{ident} {{ fn go({params}f: &mut kit::Fmt) -> kit::FmtResult; }} "
                f"impl Tr{ident} for u8 {{ fn go{sig} }}", f"<u8 as Tr{ident}>::go")  # fmt: skip
    # absolute: a formatting trait's own method, for exactly one field
    if len(fields) == 1:
        return "::core::fmt::Debug::fmt", "", "::core::fmt::Debug::fmt"
    return ident, f"pub fn {ident}{sig}", ident


class C05(engine.Prop):
    id = "C05"
    title = "Enum-level messages apply to exactly the variants without their own; error(fmt = path) calls the path"
    rule = "the enum has at least two variants and an enum-level attribute or a fmt = path variant"
    per_worker = {"quick": 500, "thorough": 1500}
    rounds = {"quick": 3, "thorough": 14}

    def strategy(self):
        return st.composite(case)()

    def emit(self, c, mode, cfg):
        items = []
        paths = {}
        top = ""
        if c["top"] == "msg":
            top = f"#[error({gen.msg_attr(c['top_def']['msg'], c['top_def']['common'])})]"
        elif c["top"] == "transparent":
            top = "#[error(transparent)]"
        elif c["top"] == "fmt":
            p, it, call = fn_of("top", c["top_def"]["form"], c["top_def"]["common"])
            top = f"#[error(fmt = {p.replace('super::{M}', 'self')})]"
            items.append(it)
            paths["top"] = call
        for v in c["variants"]:
            if v["msg"]["kind"] == "fmt":
                ident = f"f{v['msg']['id']}"
                p, it, call = fn_of(ident, v["msg"]["form"], v["fields"])
                paths[v["name"]] = (p.replace("super::{M}", "self"), call)
                items.append(it)

        def attr(v):
            if v["msg"]["kind"] == "fmt":
                return f"#[error(fmt = {paths[v['name']][0]})]"
            return defs.attr(v)

        def body(v):
            k = v["msg"]["kind"]
            if k == "inherit":
                k = c["top"]
                if k == "msg":
                    td = c["top_def"]
                    # The message refers to fields by name or number: find them in the variant.
                    m = []
                    for f in td["common"]:
                        for j, g in enumerate(v["fields"]):
                            if g["name"] == f["name"] if f["name"] else True:
                                m.append(j)
                                break
                    if td["shape"] == "tuple":
                        m = list(range(len(td["common"])))
                    binds = "".join(f"let o{a} = r{b}; " for a, b in enumerate(m))
                    binds += "".join(f"let r{a} = o{a}; " for a in range(len(m)))
                    return "            " + binds + "\n" + gen.msg_oracle(td["msg"], td["common"])
            if k == "transparent":
                return "            std::fmt::Display::fmt(r0, f)"
            if k == "fmt":
                call = paths["top"] if v["msg"]["kind"] == "inherit" else paths[v["name"]][1]
                args = "".join(f"r{j}, " for j in range(len(v["fields"])))
                return f"            {call}({args}f)"
            return gen.msg_oracle(v["msg"], v["fields"])

        if not c["variants"]:
            d = defs.decl(c, mode, attr=attr, top=top)
            hand = "impl std::fmt::Display for T { fn fmt(&self, f: &mut kit::Fmt) -> kit::FmtResult { match *self {} } }\nimpl std::error::Error for T {}"
            return "\n".join(
                ["use kit::{raw, MSG, W9};", *items, d, "" if mode == "derive" else hand,
                 "pub fn run(cx: &mut kit::Cx) {",
                 '    cx.ensure("is an Error", kit::impls!(T: std::error::Error + std::fmt::Display));', "}"])  # fmt: skip
        out = ["use kit::{raw, MSG, W9};", *items, defs.decl(c, mode, attr=attr, top=top), defs.want_fn(c, body)]
        if mode == "hand":
            out.append(defs.HAND)
        out.append("pub fn run(cx: &mut kit::Cx) {")
        for i, (v, e) in enumerate(defs.values(c)):
            out.append(f"    {{ let v = {e}; let w = kit::RefFmt(|f: &mut kit::Fmt| want(&v, f)); cx.show(\"value {i}\", &v, &w); }}")
        out.append("}")
        return "\n".join(out)

    def nontrivial(self, c):
        return len(c["variants"]) >= 2 and (c["top"] != "none" or any(v["msg"]["kind"] == "fmt" for v in c["variants"]))

    def labels(self, c):
        out = {"enum-level " + c["top"], f"{min(len(c['variants']), 4)} variants"}
        for v in c["variants"]:
            k = v["msg"]["kind"]
            out.add("variant " + k)
            if k == "inherit":
                out.add("inherits " + c["top"])
            if k == "fmt":
                out.add("path form " + v["msg"]["form"])
                if len({f["ty"] for f in v["fields"]}) < len(v["fields"]):
                    out.add("fmt with fields of equal type")
        return sorted(out | defs.dress_labels(c))


PROP = C05()
