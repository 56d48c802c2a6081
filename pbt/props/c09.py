from hypothesis import strategies as st

from .. import defs, engine, gen, sources
from ..gen import chance, num, pick

E = "std::error::Error"
BT = "std::backtrace::Backtrace"

# Sources. dyn: an expression over `s: &ty` of type &(dyn Error + 'static) that provides what
# the field provides. cls: whether it provides anything.
PROV = ["Prov::new(1, true)", "Prov::new(2, false)", "Prov::nested(3)"]
SRC = [
    ("Prov", PROV, "s", "provides"),
    ("Prov", PROV, "s", "provides"),
    ("Box<Prov>", [f"Box::new({v})" for v in PROV], "&**s", "provides"),
    ("std::sync::Arc<Prov>", [f"std::sync::Arc::new({v})" for v in PROV], "&**s", "provides"),
    ("&'static Prov", [f"&*Box::leak(Box::new({v}))" for v in PROV], "*s", "provides"),
    (f"Box<dyn {E}>", [f"Box::new({v})" for v in PROV] + ["Box::new(kit::Leaf(1))"], "&**s", "dyn provides"),
    (f"Box<dyn {E} + Send + Sync>", [f"Box::new({v})" for v in PROV], "&**s", "dyn provides"),
    (f"Box<dyn {E} + Send + Sync + 'static>", [f"Box::new({v})" for v in PROV], "&**s", "dyn provides"),
    (f"Box<dyn {E} + Send>", [f"Box::new({v})" for v in PROV], "&**s", "dyn provides"),
    (f"std::sync::Arc<dyn {E} + Send + Sync>", [f"std::sync::Arc::new({v})" for v in PROV], "&**s", "dyn provides"),
    ("kit::anyhow::Error", [f"kit::anyhow::Error::new({v})" for v in PROV[:1] + PROV[2:]], "&**s", "anyhow"),
    ("kit::Leaf", ["kit::Leaf(7)"], "s", "plain"),
    ("std::io::Error", ["std::io::Error::from(std::io::ErrorKind::NotFound)"], "s", "plain"),
    ("Box<kit::Leaf>", ["Box::new(kit::Leaf(8))"], "&**s", "plain"),
]
# Backtrace fields: type, whether it needs #[backtrace], values, expression of type
# Option<&Backtrace> over `b: &ty`.
BTS = [
    (BT, False, [f"{BT}::force_capture()", f"{BT}::disabled()"], "Some(b)"),
    ("Backtrace", False, [f"{BT}::disabled()"], "Some(b)"),
    ("::std::backtrace::Backtrace", False, [f"{BT}::disabled()"], "Some(b)"),
    (f"Option<{BT}>", True, [f"Some({BT}::disabled())", "None", f"Some({BT}::force_capture())"], "b.as_ref()"),
    ("std::option::Option<Backtrace>", True, [f"Some({BT}::disabled())", "None"], "b.as_ref()"),
    (f"core::option::Option::<{BT},>", True, [f"Some({BT}::force_capture())", "None"], "b.as_ref()"),
    (f"std::sync::Arc<{BT}>", True, [f"std::sync::Arc::new({BT}::disabled())"], "Some(&**b)"),
    ("Box<Backtrace>", True, [f"Box::new({BT}::disabled())"], "Some(&**b)"),
    ("Bt", True, [f"{BT}::disabled()"], "Some(b)"),
]
DECOYS = [
    (f"Vec<{BT}>", [f"vec![{BT}::disabled()]"]),
    ("fake::Backtrace<u8>", ["fake::Backtrace(1u8)"]),
    ("fake::Plain::r#Backtrace", ["fake::Plain::Backtrace"]),
    ("fake::Backtraces", ["fake::Backtraces"]),
    ("fake::backtrace", ["fake::backtrace"]),
    ("Prov", PROV),
    ("kit::Leaf", ["kit::Leaf(5)"]),
    ("i32", ["1", "2"]),
    ("String", ['String::from("s")']),
]
ITEMS = f"""
pub mod fake {{
    #[derive(Debug)] pub struct Backtrace<T>(pub T);
    #[derive(Debug)] pub struct Backtraces;
    #[derive(Debug)] #[allow(non_camel_case_types)] pub struct backtrace;
    #[allow(non_snake_case)] pub mod Plain {{ #[derive(Debug)] pub struct Backtrace; }}
}}
pub type Bt = {BT};
#[derive(Debug, PartialEq)]
pub struct Tag(pub u32);
/// Provides a tag, a number, perhaps a backtrace, and then what its own source provides.
#[derive(Debug)]
pub struct Prov {{ tag: Tag, bt: Option<{BT}>, inner: Option<Box<Prov>> }}
impl Prov {{
    pub fn new(n: u32, bt: bool) -> Self {{
        Prov {{ tag: Tag(n), bt: if bt {{ Some({BT}::disabled()) }} else {{ None }}, inner: None }}
    }}
    pub fn nested(n: u32) -> Self {{ Prov {{ tag: Tag(n), bt: None, inner: Some(Box::new(Prov::new(n + 100, true))) }} }}
}}
impl std::fmt::Display for Prov {{
    fn fmt(&self, f: &mut kit::Fmt) -> kit::FmtResult {{ write!(f, "prov{{}}", self.tag.0) }}
}}
impl {E} for Prov {{
    fn source(&self) -> Option<&(dyn {E} + 'static)> {{ self.inner.as_ref().map(|e| &**e as &(dyn {E} + 'static)) }}
    fn provide<'a>(&'a self, request: &mut std::error::Request<'a>) {{
        if let Some(bt) = &self.bt {{ request.provide_ref::<{BT}>(bt); }}
        request.provide_ref::<Tag>(&self.tag).provide_value::<u64>(self.tag.0 as u64);
        if let Some(e) = &self.inner {{ e.provide(request); }}
    }}
}}
/// Everything that can be asked of an error: the backtrace and the tag by address.
pub type Answers = (Option<*const ()>, Option<*const ()>, Option<u64>);
pub fn ask(e: &(dyn {E} + 'static)) -> Answers {{
    (
        std::error::request_ref::<{BT}>(e).map(|b| kit::addr(b)),
        std::error::request_ref::<Tag>(e).map(|b| kit::addr(b)),
        std::error::request_value::<u64>(e),
    )
}}
pub fn or(a: Answers, b: Answers) -> Answers {{ (a.0.or(b.0), a.1.or(b.1), a.2.or(b.2)) }}
pub fn own(b: Option<&{BT}>) -> Answers {{ (b.map(|b| kit::addr(b)), None, None) }}
"""


def src_field(draw, from_, plain=False):
    t = pick(draw, [s for s in SRC if s[3] == "plain"] if plain else SRC)
    f = {"ty": t[0], "bare": t[0], "vals": [pick(draw, t[1]) for _ in range(2)], "dyn": t[2], "cls": t[3], "role": "source",
         "name": None, "attrs": [], "opt": False, "bare_vals": t[1]}  # fmt: skip
    if chance(draw, 1, 3):
        f["opt"] = True
        f["ty"] = pick(draw, sources.OPTION).format(f["ty"])
        f["vals"] = [f"Some({v})" if chance(draw, 2, 3) else "None" for v in f["vals"]]
    return f


def bt_field(draw):
    t = pick(draw, BTS)
    return {"ty": t[0], "vals": [pick(draw, t[2]) for _ in range(2)], "opt": t[3], "role": "backtrace", "name": None,
            "attrs": ["#[backtrace]"] if t[1] or chance(draw, 1, 3) else [], "cls": "bt"}  # fmt: skip


def variant(draw, name):
    shape = pick(draw, ["named", "tuple"])
    how = pick(draw, [
        "nothing", "backtrace", "backtrace", "source", "shared", "shared", "shared", "source+backtrace", "source+backtrace",
        "from+backtrace", "from+backtrace", "from+backtrace", "from shared", "transparent", "transparent shared",
    ])  # fmt: skip
    v = {"name": name, "shape": shape, "how": how, "fields": []}
    fs = []
    if how in ("backtrace", "source+backtrace", "from+backtrace"):
        fs.append(bt_field(draw))
    if how not in ("nothing", "backtrace"):
        from_ = "from" in how
        f = src_field(draw, from_)
        if "transparent" in how:
            f = src_field(draw, from_)
            while f["opt"]:
                f["opt"], f["ty"], f["vals"] = False, f["bare"], f["bare_vals"][:1] * 2
        at = ["#[from]"] if from_ else ["#[source]"]
        if "transparent" in how:
            at = pick(draw, [[], ["#[from]"]])
            # provide() is forwarded only if the field is a source: named so, or marked.
            v["named source"] = True
        if not from_ and "transparent" not in how and shape == "named" and chance(draw, 1, 2):
            at = []
            f["name"] = "source"
        if "shared" in how:
            at = at + ["#[backtrace]"] if chance(draw, 1, 2) else ["#[backtrace]"] + at
        f["attrs"] = at
        fs.insert(num(draw, 0, len(fs)), f)
        if "transparent" in how:
            if "#[from]" not in at:
                if shape == "named":
                    f["name"] = "source"
                elif "shared" in how:
                    f["attrs"] = ["#[from]", "#[backtrace]"]
    if "from" not in how and "transparent" not in how and not any("#[from]" in f["attrs"] for f in fs):
        for _ in range(num(draw, 0, 2)):
            d = pick(draw, DECOYS)
            fs.insert(num(draw, 0, len(fs)), {"ty": d[0], "vals": [pick(draw, d[1]) for _ in range(2)], "role": "decoy", "name": None, "attrs": [], "cls": "decoy"})
    if shape == "named":
        pool = ["a", "b", "c", "r#type", "request", "backtrace", "bt", "err", "cause", "r#fn"]
        for f, nm in zip(fs, gen.names(draw, len(fs), pool)):
            if f["name"] is None:
                f["name"] = nm
    v["fields"] = fs
    # Where a source provides a backtrace and another field is marked #[backtrace] explicitly,
    # the documentation does not say which is to win: only sources that provide nothing.
    marked = [f for f in fs if f["role"] == "backtrace" and "#[backtrace]" in f["attrs"]]
    if marked:
        for i, f in enumerate(fs):
            if f["role"] == "source" and f["cls"] != "plain":
                g = src_field(draw, False, plain=True)
                g["name"], g["attrs"] = f["name"], f["attrs"]
                fs[i] = g
    return v


def case(draw):
    if chance(draw, 1, 2):
        c = {"kind": "struct", "variants": [variant(draw, None)]}
    else:
        c = {"kind": "enum", "variants": [variant(draw, n) for n in gen.names(draw, gen.many(draw, 1, 4), defs.VNAMES)]}
    seen = set()
    for v in c["variants"]:
        for f in v["fields"]:
            if "#[from]" in f["attrs"]:
                key = f["bare"].replace(" + 'static", "")
                if key in seen:
                    f["attrs"] = ["#[source]" if a == "#[from]" else a for a in f["attrs"]]
                seen.add(key)
    # Validity: a transparent variant has no #[source].
    for v in c["variants"]:
        if "transparent" in v["how"]:
            for f in v["fields"]:
                if "#[source]" in f["attrs"]:
                    v["how"] = "shared" if "#[backtrace]" in f["attrs"] else "source"
    return c


def answers(v):
    """What provide() answers, over the references r0, r1, ..."""
    src = next(((i, f) for i, f in enumerate(v["fields"]) if f["role"] == "source"), None)
    bt = next(((i, f) for i, f in enumerate(v["fields"]) if f["role"] == "backtrace"), None)
    nothing = "(None, None, None)"
    shared = src and "#[backtrace]" in src[1]["attrs"]
    out = nothing
    if src and (bt or shared):
        i, f = src
        d = f["dyn"]
        out = f"{{ let s = r{i}; ask({d}) }}" if not f["opt"] else f"match r{i} {{ Some(s) => ask({d}), None => {nothing} }}"
    if bt:
        i, f = bt
        out = f"or({out}, {{ let b = r{i}; own({f['opt']}) }})"
    return out


class C09(engine.Prop):
    id = "C09"
    title = "provide() answers with the Backtrace field, or forwards to a source marked #[backtrace]; From captures"
    rule = "some field is a backtrace or a source marked #[backtrace]"
    per_worker = {"quick": 700, "thorough": 1500}
    rounds = {"quick": 3, "thorough": 14}
    assumptions = ["nightly-2025-05-01 is the newest installed compiler whose provide API the build probe accepts"]

    def configs(self):
        return ["nightly", "nightly+backtrace"]

    def run_env(self, cfg):
        return {"RUST_BACKTRACE": "1" if "+" in cfg else "0"}

    def crate_attrs(self, cfg):
        return "#![feature(error_generic_member_access)]\n"

    def crate_items(self, cfg):
        return ITEMS

    def strategy(self):
        return st.composite(case)()

    def emit(self, c, mode, cfg):
        attr = lambda v: "#[error(transparent)]" if "transparent" in v["how"] else '#[error("msg")]'  # noqa: E731
        out = ["use crate::*; use std::backtrace::Backtrace;", defs.decl(c, mode, attr=attr)]
        arms = "".join(f"        {gen.pattern(defs.path(c, v), v['fields'])} => {answers(v)},\n" for v in c["variants"])
        out.append("fn want(v: &T) -> Answers {\n    match v {\n" + arms + "    }\n}")
        if mode == "hand":
            out.append(self.hand(c))
        out.append("pub fn run(cx: &mut kit::Cx) {")
        for i, (v, e) in enumerate(defs.values(c)):
            out.append(f"    {{ let v = {e}; cx.eq(\"value {i} provides\", ask(&v), want(&v)); }}")
        for v in c["variants"]:
            for i, f in enumerate(v["fields"]):
                if "#[from]" not in f["attrs"]:
                    continue
                pat = gen.pattern(defs.path(c, v), v["fields"])
                for x in f["bare_vals"]:
                    out.append(f"    {{ let v = T::from({{ let x: {f['bare']} = {x}; x }}); cx.eq(\"made by From\", ask(&v), want(&v));")
                    out.append("      match &v {")
                    chk = ""
                    for j, g in enumerate(v["fields"]):
                        if g["role"] == "backtrace":
                            chk += f"let b = r{j}; let b: Option<&Backtrace> = {g['opt']}; cx.eq(\"captured\", b.map(|b| format!(\"{{:?}}\", b.status())), Some(format!(\"{{:?}}\", Backtrace::capture().status())));"
                            if "+" in cfg:
                                chk += "cx.ensure(\"captured in from()\", b.map_or(false, |b| b.to_string().contains(\"main\")));" if False else ""
                    out.append(f"        {pat} => {{ {chk} }}")
                    out.append('        _ => cx.fail("From built another variant".to_string()), } }')
        out.append("}")
        return "\n".join(out)

    def hand(self, c):
        out = ["impl std::fmt::Display for T { fn fmt(&self, f: &mut kit::Fmt) -> kit::FmtResult { Ok(()) } }",
               f"impl {E} for T {{ fn provide<'a>(&'a self, request: &mut std::error::Request<'a>) {{ match self {{"]  # fmt: skip
        for v in c["variants"]:
            b = ""
            bt = any(f["role"] == "backtrace" for f in v["fields"])
            for i, f in enumerate(v["fields"]):
                if f["role"] == "source" and (bt or "#[backtrace]" in f["attrs"]):
                    do = f"{E}::provide({f['dyn']}, request)"
                    b += f"{{ let s = r{i}; {do}; }}" if not f["opt"] else f"if let Some(s) = r{i} {{ {do}; }}"
            for i, f in enumerate(v["fields"]):
                if f["role"] == "backtrace":
                    b += f"{{ let b = r{i}; let b: Option<&Backtrace> = {f['opt']}; if let Some(b) = b {{ request.provide_ref::<Backtrace>(b); }} }}"
            out.append(f"    {gen.pattern(defs.path(c, v), v['fields'])} => {{ {b} }}")
        out.append("} } }")
        for v in c["variants"]:
            for i, f in enumerate(v["fields"]):
                if "#[from]" in f["attrs"]:
                    nm = lambda k, g: k if g["name"] is None else g["name"]  # noqa: E731
                    inits = [f"{nm(i, f)}: " + ("Some(s)" if f["opt"] else "s")]
                    for j, g in enumerate(v["fields"]):
                        if g["role"] == "backtrace":
                            x = "Backtrace::capture()"
                            x = f"Some({x})" if "Option" in g["ty"] else f"{x}.into()"
                            inits.append(f"{nm(j, g)}: {x}")
                    out.append(f"impl From<{f['bare']}> for T {{ fn from(s: {f['bare']}) -> T {{ {defs.path(c, v)} {{ {', '.join(inits)} }} }} }}")
        return "\n".join(out)

    def nontrivial(self, c):
        return any(f["role"] == "backtrace" or "#[backtrace]" in f["attrs"] for v in c["variants"] for f in v["fields"])

    def labels(self, c):
        out = {c["kind"]}
        for v in c["variants"]:
            out.add("how: " + v["how"])
            for f in v["fields"]:
                if f["role"] == "source":
                    out.add("source " + f["cls"] + (" optional" if f["opt"] else ""))
                if f["role"] == "backtrace":
                    out.add("backtrace type " + f["ty"] + (" marked" if f["attrs"] else ""))
                if f["role"] == "decoy":
                    out.add("decoy " + f["ty"].split("<")[0])
        return sorted(out)


PROP = C09()
