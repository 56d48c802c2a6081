from hypothesis import strategies as st

from .. import defs, engine, gen, sources
from ..gen import chance, num, pick

E = "std::error::Error"
GX = [
    {"ty": "kit::GLeaf<X>", "vals": ["kit::GLeaf(5u8, 41)"], "addr": ["kit::addr(s)"], "dyn": "s", "down": None, "cls": "generic"},
    {"ty": "Box<kit::GLeaf<X>>", "vals": ["Box::new(kit::GLeaf(5u8, 42))"], "addr": ["kit::addr(s)"], "dyn": "s", "down": None, "cls": "generic"},
    {"ty": "kit::GLeaf<Vec<X>>", "vals": ["kit::GLeaf(vec![5u8], 43)"], "addr": ["kit::addr(s)"], "dyn": "s", "down": None, "cls": "generic"},
]
GENERICS = {
    "none": ("", "", "", ""),
    "bounds": ("<X: std::fmt::Debug + 'static>", "<X>", "", "<u8>"),
    "where": ("<X>", "<X>", "where X: std::fmt::Debug + 'static", "<u8>"),
    "default": ("<X: std::fmt::Debug + 'static = u8>", "<X>", "", "<u8>"),
    "const": ("<const N: usize>", "<N>", "", "<3>"),
    "lifetime": ("<'a>", "<'a>", "", "<'static>"),
    # Without bounds: the conversions are there for any X, whatever the other impls ask of it.
    "free": ("<X>", "<X>", "", "<u8>"),
    "free default": ("<X = u8>", "<X>", "", "<u8>"),
    "free many": ("<'a, X, const N: usize>", "<'a, X, N>", "", "<'static, u8, 3>"),
    "many": ("<'a, X, const N: usize>", "<'a, X, N>", "where X: std::fmt::Debug + Clone + 'static,", "<'static, u8, 3>"),
}


#: Types of a field that receives the captured backtrace: (type, needs #[backtrace], its initial value, how to get at it).
BT = "std::backtrace::Backtrace"
BACKTRACES = [
    (BT, 0, "{}", "Some({})"), (f"Option<{BT}>", 1, "Some({})", "{}.as_ref()"), (f"std::option::Option<{BT}>", 1, "Some({})", "{}.as_ref()"),
    (f"Box<{BT}>", 1, "Box::new({})", "Some(&**{})"), (f"std::sync::Arc<{BT}>", 1, "std::sync::Arc::new({})", "Some(&**{})"),
]


def shown(c, cfg):
    """The definition in this configuration: elsewhere there are no backtraces."""
    if not cfg.startswith("nightly"):
        return c
    vs = []
    for v in c["variants"]:
        b = v.get("bt")
        if b and any(sources.is_from(f) for f in v["fields"]):
            fs = list(v["fields"])
            if b["ty"] is None:
                fs[0] = dict(fs[0], attrs=fs[0]["attrs"] + b["attrs"])
            else:
                t = {"ty": b["ty"][0], "bare": b["ty"][0], "name": b["name"], "attrs": b.get("attrs", []), "cls": "bt", "init": b["ty"][2], "get": b["ty"][3]}
                fs.insert(0 if b["first"] else 1, t)
            v = dict(v, fields=fs)
        vs.append(v)
    return dict(c, variants=vs)


def variant(draw, name, pool):
    shape = pick(draw, ["named", "tuple"])
    how = pick(draw, ["from", "from", "from", "from", "source", "ignored", "none", "transparent", "transparent from"])
    fields = []
    f = sources.source_field(draw, pool=pool, optional="transparent" not in how)
    f["name"] = pick(draw, ["source", "e", "r#fn", "inner", "error"]) if shape == "named" else None
    if how in ("from", "transparent from"):
        f["attrs"] = pick(draw, [["#[from]"], ["#[from]"], ["#[from]", "#[source]"] if how == "from" else ["#[from]"],
                                 ["#[cfg_attr(all(), from)]"], ["#[from(skip)]", "#[from]"]])  # fmt: skip
    elif how == "source":
        f["attrs"] = ["#[source]"]
    elif how == "ignored":  # for some other derive
        f["attrs"] = [pick(draw, ["#[from(skip)]", "#[from(forward)]", "#[from = \"x\"]", "#[from(A, B)]", "#[from()]"])]
    fields = [f]
    if how in ("source", "none", "ignored") and chance(draw, 1, 2):
        g = gen.field(draw, [t for t in gen.TYPES if t[3] in ("int", "string")])
        g["name"] = "extra" if shape == "named" else None
        fields.insert(num(draw, 0, 1), g)
    bt = None
    if how == "from" and chance(draw, 1, 2):
        bt = {"ty": pick(draw, BACKTRACES), "first": chance(draw, 1, 2), "name": pick(draw, ["bt", "backtrace", "r#trace", "at"])}
        if shape == "tuple":
            bt["name"] = None
        if bt["ty"][1] or chance(draw, 1, 4):
            bt["attrs"] = ["#[backtrace]"]
    elif how == "from" and f["t"]["cls"] == "plain" and chance(draw, 1, 6):
        bt = {"ty": None, "attrs": ["#[backtrace]"]}
    return {"name": name, "shape": shape, "fields": fields, "how": how, "bt": bt,
            "msg": {"kind": "transparent" if "transparent" in how else "text"}}  # fmt: skip


def case(draw):
    g = pick(draw, ["none"] * 6 + list(GENERICS) + ["free", "free"])
    pool = sources.SOURCES + (GX * 5 if "X" in GENERICS[g][0] else [])
    if chance(draw, 1, 3):
        vs = [variant(draw, None, pool)]
        kind = "struct"
    else:
        vs = [variant(draw, n, pool) for n in gen.names(draw, gen.many(draw, 1, 5, 40), defs.VNAMES)]
        kind = "enum"
    seen = set()
    for v in vs:
        for f in v["fields"]:
            if sources.is_from(f):
                key = sources.canon(f["bare"])
                if key in seen or key == "kit::GLeaf<X>" and "kit::GLeaf<u8>" in seen:
                    f["attrs"] = []
                    v["how"] = "transparent" if "transparent" in v["how"] else "none"
                elif "X" in GENERICS[g][0] and key.startswith(("kit::GLeaf<", "Box<kit::GLeaf<")):
                    # GLeaf<X> overlaps with GLeaf of anything.
                    if any(k.startswith(key.split("GLeaf")[0] + "GLeaf") for k in seen):
                        f["attrs"] = []
                        v["how"] = "transparent" if "transparent" in v["how"] else "none"
                    else:
                        seen.add(key)
                else:
                    seen.add(key)
    if kind == "struct" and g != "none":
        fs = vs[0]["fields"]
        if g in ("many", "free many", "lifetime", "const") or not any("X" in f["ty"] and "GLeaf" in f["ty"] for f in fs):
            # A struct has to use its parameters.
            g = "none"
            for f in fs:
                for k in ("ty", "bare"):
                    if k in f:
                        f[k] = f[k].replace("<X>", "<u8>")
    return {"kind": kind, "generics": g, "variants": vs}


UNIVERSE = ["std::backtrace::Backtrace"] + list(dict.fromkeys(sources.canon(s["ty"]) for s in sources.SOURCES)) + [
    "Option<kit::Leaf>", "Option<kit::Node>", "String", "&'static str", "()", "u8", "Box<kit::Node>", "Option<std::io::Error>",
    "Box<kit::GLeaf<u8>>", "kit::GLeaf<Vec<u8>>", f"Option<Box<dyn {E} + Send + Sync>>",
]  # fmt: skip


class C08(engine.Prop):
    id = "C08"
    title = "From impls exist for exactly the #[from] fields and build the right variant with the value unchanged"
    rule = "there is at least one #[from] field, and either a second variant, an Option, generics, or a boxed type"
    per_worker = {"quick": 400, "thorough": 1500}
    rounds = {"quick": 3, "thorough": 14}

    def configs(self):
        return ["stable", "nightly", "stable", "nightly+backtrace", "stable", "synfull"]

    def run_env(self, cfg):
        return {"RUST_BACKTRACE": "1" if "+" in cfg else "0"}

    def crate_attrs(self, cfg):
        return "#![feature(error_generic_member_access)]\n" if cfg.startswith("nightly") else ""

    def strategy(self):
        return st.composite(case)()

    def emit(self, c, mode, cfg):
        c = shown(c, cfg)
        decl_g, use_g, where, inst = GENERICS[c["generics"]]
        attr = lambda v: "#[error(transparent)]" if v["msg"]["kind"] == "transparent" else '#[error("text")]'  # noqa: E731
        d = defs.decl(c, mode, attr=attr)
        # Generic parameters must be used: one more variant, or for a struct none unless used.
        g = c["generics"]
        if c["kind"] == "enum":
            d = d.replace("pub enum T {", f"pub enum T{decl_g} {where} {{")
            use = {"const": "[u8; N]", "lifetime": "&'a u8", "many": "&'a u8, [u8; N], X", "free many": "&'a u8, [u8; N], X"}.get(g, "X" if decl_g else "")
            if use:
                k = d.rindex("}")
                d = d[:k] + ('    #[error("unused{0:?}")]\n' if mode == "derive" else "") + f"    Unused({use}),\n" + d[k:]
        else:
            v = c["variants"][0]
            if decl_g:
                if v["shape"] == "named":
                    d = d.replace("pub struct T {", f"pub struct T{decl_g} {where} {{")
                else:
                    d = d.replace("pub struct T(", f"pub struct T{decl_g}(").replace(");", f") {where};")
        out = [d]
        TI = "T" + inst
        p = "T" if c["kind"] == "struct" else "T::"
        froms = []
        for v in c["variants"]:
            for i, f in enumerate(v["fields"]):
                if sources.is_from(f):
                    froms.append((v, i, f))
        if mode == "hand":
            for v, i, f in froms:
                out.append(sources.hand_from(defs.path(c, v), v, i, decl_g.replace(" = u8", ""), "T" + use_g, where))
            out.append(f"impl{decl_g.replace(' = u8', '')} std::fmt::Display for T{use_g} {where} {{ fn fmt(&self, f: &mut kit::Fmt) -> kit::FmtResult {{ Ok(()) }} }}")
            free = f"where T{use_g}: std::fmt::Debug" if g.startswith("free") else where
            out.append(f"impl{decl_g.replace(' = u8', '')} {E} for T{use_g} {free} {{ }}")
        out.append("pub fn run(cx: &mut kit::Cx) {")
        have = set()
        for n, (v, i, f) in enumerate(froms):
            bare = f["bare"].replace("<X>", "<u8>").replace("Vec<X>", "Vec<u8>")
            have.add(sources.canon(bare))
            for w in range(2):
                val = f["t"]["vals"][w % len(f["t"]["vals"])]
                pat = gen.pattern(defs.path(c, v), v["fields"])
                field = f"r{i}"
                if f["opt"]:
                    field = f"r{i}.as_ref().unwrap()"
                out.append(f"    {{ let x: {bare} = {val}; let want = format!(\"{{x:?}}\"); let p = {{ let s = &x; {heap(f)} }};")
                conv = f"<{TI} as From<{bare}>>::from(x)" if w == 0 else f"(|| -> Result<(), {TI}> {{ Err(x)?; Ok(()) }})().unwrap_err()"
                out.append(f"      let v: {TI} = {conv};")
                out.append(f"      match &v {{ {pat} => {{ cx.eq(\"value {n}\", format!(\"{{:?}}\", {field}), want); let s = {field}; "
                           if f["opt"] else
                           f"      match &v {{ {pat} => {{ cx.eq(\"value {n}\", format!(\"{{:?}}\", {field}), want); let s = {field}; ")
                for k, b in enumerate(v["fields"]):
                    if b["cls"] == "bt":
                        got = b["get"].format(f"r{k}")
                        out.append(f"        cx.eq(\"captured {n}\", {got}.map(|b: &{BT}| b.status()), Some({BT}::capture().status()));")
                out.append(f"        cx.eq(\"same heap object {n}\", {heap(f)}, p); }}")
                out.append(f"        _ => cx.fail(format!(\"From number {n} built another variant: {{:?}}\", v)), }}")
                out.append("    }")
        for u in UNIVERSE:
            if sources.canon(u) not in have:
                out.append(f"    cx.ensure(\"no From<{u.replace(chr(34), '')}>\", !kit::impls!({TI}: From<{u}>));")
        for h in sorted(have):
            out.append(f"    cx.ensure(\"From<{h}>\", kit::impls!({TI}: From<{h}>));")
        if g.startswith("free"):
            # For a type that has no formatting and is not an error.
            TN = "T" + inst.replace("u8", "kit::NoFmt")
            for h in dict.fromkeys(f["bare"].replace("X", "kit::NoFmt") for _, _, f in froms):
                out.append(f"    cx.ensure(\"From<{h}> for any parameter\", kit::impls!({TN}: From<{h}>));")
            for u in UNIVERSE:
                if sources.canon(u) not in have:
                    out.append(f"    cx.ensure(\"no From<{u.replace(chr(34), '')}> for any parameter\", !kit::impls!({TN}: From<{u}>));")
        out.append("}")
        return "\n".join(out)

    def nontrivial(self, c):
        fs = [f for v in c["variants"] for f in v["fields"] if sources.is_from(f)]
        return bool(fs) and (
            len(c["variants"]) > 1 or c["generics"] != "none" or any(f["opt"] or f["t"]["cls"] != "plain" for f in fs)
        )

    def labels(self, c):
        out = {c["kind"], "generics " + c["generics"]}
        out |= {"backtrace " + ("shared" if v["bt"]["ty"] is None else v["bt"]["ty"][0]) for v in c["variants"] if v.get("bt")}
        n = 0
        for v in c["variants"]:
            out.add("how: " + v["how"])
            for f in v["fields"]:
                if sources.is_from(f):
                    n += 1
                    out.add("from class " + f["t"]["cls"] + (" optional" if f["opt"] else ""))
        out.add(f"{min(n, 3)} From impls")
        return sorted(out)


def heap(f):
    """An expression for the address of what `s: &ty` owns on the heap, if anything."""
    if f["bare"].startswith(("Box<", "std::sync::Arc<", "std::rc::Rc<", "&", "kit::anyhow")):
        return "kit::addr(&**s)"
    return "0usize"


PROP = C08()
