from hypothesis import strategies as st

from .. import defs, engine, gen
from ..gen import chance, num, pick

TRAITS = {"": "Display", "?": "Debug", "x": "LowerHex", "X": "UpperHex", "o": "Octal", "b": "Binary", "e": "LowerExp",
          "E": "UpperExp", "p": "Pointer"}  # fmt: skip
# Types to instantiate a parameter with: name, value, what it implements.
MARKS = [
    ("kit::NoFmt", "kit::NoFmt(0)", ""), ("kit::OnlyDebug", "kit::OnlyDebug(1)", "?"), ("kit::OnlyDisplay", "kit::OnlyDisplay(2)", "D"),
    ("kit::OnlyLowerHex", "kit::OnlyLowerHex(3)", "x"), ("kit::OnlyUpperHex", "kit::OnlyUpperHex(4)", "X"),
    ("kit::OnlyOctal", "kit::OnlyOctal(5)", "o"), ("kit::OnlyBinary", "kit::OnlyBinary(6)", "b"),
    ("kit::OnlyPointer", "kit::OnlyPointer(7)", "p"), ("kit::OnlyLowerExp", "kit::OnlyLowerExp(8)", "e"),
    ("kit::OnlyUpperExp", "kit::OnlyUpperExp(9)", "E"), ("kit::DebugDisplay", "kit::DebugDisplay(10)", "D?"),
    ("kit::AllFmt", "kit::AllFmt(11)", "D?xXobeEp"), ("kit::Leaf", "kit::Leaf(12)", "D?!"), ("kit::Gen<kit::Leaf>", "kit::Gen(kit::Leaf(13))", "D?!"),
]  # fmt: skip
BY = {m[0]: m for m in MARKS}

# Field types over parameters P and Q, with a value over p and q. Kind: "path" is what bounds are
# inferred for; "other" needs the user to bound P (or Q) by hand; assoc needs P: Assoc.
FT = [
    ("P", "p", "path"), ("P", "p", "path"), ("P", "p", "path"),
    ("kit::Gen<P>", "kit::Gen(p)", "path"), ("kit::Gen<kit::Gen<P>>", "kit::Gen(kit::Gen(p))", "path"),
    ("kit::Always<P>", "kit::Always(p)", "path"), ("kit::NeedsHex<P>", "kit::NeedsHex(p)", "path"),
    ("kit::First<P, Q>", "kit::First(p, q)", "path"), ("kit::First<u8, P>", "kit::First(5u8, p)", "path"),
    ("Vec<P>", "vec![p]", "path"), ("Option<P>", "Some(p)", "path"), ("Box<P>", "Box::new(p)", "path"),
    ("std::rc::Rc<P>", "std::rc::Rc::new(p)", "path"), ("Result<P, Q>", "Ok::<P, Q>(p)", "path"),
    ("std::marker::PhantomData<P>", "std::marker::PhantomData", "path"),
    ("kit::First<P, u8>", "kit::First(p, 5u8)", "path"), ("kit::First<kit::Gen<P>, u8>", "kit::First(kit::Gen(p), 6u8)", "path"),
    ("kit::First::<P, &'static str,>", 'kit::First(p, "x")', "path"), ("Result<P, u8>", "Ok::<P, u8>(p)", "path"),
    ("Result<u8, P>", "Err::<u8, P>(p)", "path"), ("std::collections::BTreeMap<P, u8>", "std::collections::BTreeMap::new()", "path"),
    ("std::collections::BTreeMap<u8, P>", "std::collections::BTreeMap::new()", "path"), ("kit::Arr<P, 1>", "kit::Arr([p])", "path"),
    ("kit::Arr<P, { 2 - 1 }>", "kit::Arr([p])", "path"), ("<u8 as kit::Rel<P>>::Out", "p", "path"), ("<kit::HasOut<P> as kit::Assoc>::Out", "p", "path"),
    ("Option<Vec<P>>", "Some(vec![p])", "path"),
    ("kit::Lent<'static, P>", "kit::Lent(Box::leak(Box::new(p)))", "path"),
    ("<P as kit::Assoc>::Out", "p", "assoc"), ("P::Out", "p", "assoc"), ("Vec<P::Out>", "vec![p]", "assoc"),
    ("[P; 1]", "[p]", "other"), ("(P, u8)", "(p, 1)", "other"), ("&'static P", "Box::leak(Box::new(p))", "other"),
    ("Vec<(P, u8)>", "vec![(p, 1)]", "other"), ("Option<[P; 1]>", "Some([p])", "other"),
    ("u8", "8", "plain"), ("String", 'String::from("s")', "plain"), ("kit::AllFmt", "kit::AllFmt(9)", "plain"),
    ("kit::Gen<kit::Leaf>", "kit::Gen(kit::Leaf(1))", "plain"),
]  # fmt: skip
DEBUG_ONLY = ("Vec<P>", "Option<P>", "Result<P, Q>", "Option<Vec<P>>", "std::marker::PhantomData<P>", "Vec<P::Out>", "Result<P, u8>",
              "Result<u8, P>", "std::collections::BTreeMap<P, u8>", "std::collections::BTreeMap<u8, P>")  # fmt: skip
PLAIN_CAPS = {"u8": "DxXob?eE", "String": "D?", "kit::AllFmt": "DxXob?eEp", "kit::Gen<kit::Leaf>": "D?"}
PARAMS = ["A", "B", "C", "Other", "r#type", "E", "_U", "Error", "Display", "Formatter", "Source"]
SRC = ["P", "P", "kit::Gen<P>", "kit::Always<P>", "kit::NeedsHex<P>", "Box<P>", "kit::First<P, Q>", "std::sync::Arc<P>",
       "kit::First<P, u8>", "kit::First<kit::Gen<P>, u8>", "kit::First::<P, &'static str,>", "<u8 as kit::Rel<P>>::Out"]  # fmt: skip
SRCV = {s: v for s, v, _ in FT} | {"std::sync::Arc<P>": "std::sync::Arc::new(p)"}


def sub(t, p, q):
    """Replaces the words P and Q (and the value words p and q)."""
    import re

    return re.sub(r"\b[PQ]\b", lambda m: p if m.group() == "P" else q, t)


def subv(t, p, q, tp, tq):
    import re

    m = {"p": p, "q": q, "P": tp, "Q": tq}
    return re.sub(r"\b[pqPQ]\b", lambda x: m[x.group()], t)


FLAGS = ["#", "9", ">9", ".2", "+", "09", "}<5", "?>6", "x^#12", "{<4", "}^7", "}>7", "{^3", "e<#.1", "-", "p>2", "é^5", "}<", "o^", ":>4", "<<3", "^^+3"]
SPACES = [" ", "  ", "\\n", "\\t "]


def variant(draw, name, params, user):
    v = {"name": name, "shape": pick(draw, ["named", "tuple"]), "fields": [], "msg": []}
    kind = pick(draw, ["msg"] * 8 + ["transparent", "fmt" if name else "msg"])
    v["kind"] = kind
    tn = [p for p in params if p not in user["assoc"]]

    def one(pool):
        ft, val, k = pick(draw, pool)
        p = pick(draw, sorted(user["assoc"]) if k == "assoc" else params)
        q = pick(draw, params)
        return {"t": ft, "v": val, "k": k, "p": p, "q": q, "name": None, "attrs": [], "role": "field"}

    pool = [f for f in FT if f[2] != "assoc" or user["assoc"]]
    if kind == "transparent":
        if not tn:
            v["kind"] = kind = "msg"
        else:
            s = pick(draw, SRC)
            f = {"t": s, "v": SRCV[s], "k": "path", "p": pick(draw, tn), "q": pick(draw, tn), "name": None, "attrs": [], "role": "source"}
            v["fields"] = [f]
    if kind == "fmt":
        v["fields"] = [one(pool) for _ in range(num(draw, 1, 2))]
    if kind == "msg":
        v["fields"] = [one(pool) for _ in range(num(draw, 0, 4))]
        if tn and chance(draw, 1, 3):
            s = pick(draw, SRC)
            f = {"t": s, "v": SRCV[s], "k": "path", "p": pick(draw, tn), "q": pick(draw, tn), "name": None, "attrs": ["#[source]"],
                 "role": "source", "opt": chance(draw, 1, 4)}  # fmt: skip
            v["fields"].insert(num(draw, 0, len(v["fields"])), f)
        for _ in range(num(draw, 0, 4)):
            if not v["fields"]:
                break
            i = num(draw, 0, len(v["fields"]) - 1)
            f = v["fields"][i]
            if f.get("opt"):
                continue
            if f["k"] == "plain":
                tr = pick(draw, [c.replace("D", "") for c in PLAIN_CAPS[f["t"]]])
            elif f["k"] == "other":
                tr = "?"
                user["bounds"].setdefault(f["p"], set()).add("Debug")
            elif f["t"] in DEBUG_ONLY:
                tr = "?"  # nothing else could ever hold
            else:
                tr = pick(draw, ["", "", "", "?", "?", "x", "X", "o", "b", "e", "E", "p"])
                if f["t"] in ("Box<P>", "std::rc::Rc<P>", "std::sync::Arc<P>"):
                    tr = pick(draw, ["", "?", "p"])
            v["msg"].append([i, tr, pick(draw, ["", "", "", *FLAGS]) if tr != "p" else "", *([pick(draw, SPACES)] if chance(draw, 1, 6) else [])])
    if v["shape"] == "named":
        for f, nm in zip(v["fields"], gen.names(draw, len(v["fields"]), ["a", "b", "c", "x", "r#fn", "r#match", "inner", "f", "msg"])):
            f["name"] = nm
            if f["role"] == "source" and kind == "msg" and chance(draw, 1, 3):
                f["name"], f["attrs"] = "source", []
    return v


def case(draw):
    params = gen.names(draw, num(draw, 1, 3), PARAMS)
    assoc = set()
    if chance(draw, 1, 5):
        assoc = {pick(draw, params)}
    user = {"assoc": assoc, "bounds": {}}
    if chance(draw, 1, 2):
        vs = [variant(draw, None, params, user)]
        kind = "struct"
    else:
        vs = [variant(draw, n, params, user) for n in gen.names(draw, gen.many(draw, 1, 4, 60), defs.VNAMES)]
        kind = "enum"
    for p in params:
        if p not in assoc and chance(draw, 1, 8):
            user["bounds"].setdefault(p, set()).add(pick(draw, ["Debug", "Display"]))
    caps = {"Debug": "?", "Display": "D"}
    insts = []
    for _ in range(5):
        inst = []
        for p in params:
            ok = [m[0] for m in MARKS if all(caps[b] in m[2] for b in user["bounds"].get(p, ()))]
            inst.append(pick(draw, ok))
        insts.append(inst)
    # #[derive(Debug)] only bounds the parameters themselves.
    no_debug = any(f["k"] == "assoc" or f["t"] == "kit::NeedsHex<P>" for v in vs for f in v["fields"])
    # The instance that implements everything, and the one where all are errors.
    insts += [["kit::AllFmt"] * len(params), ["kit::Leaf"] * len(params)]
    return {
        "kind": kind, "params": params, "assoc": sorted(assoc), "bounds": {k: sorted(b) for k, b in user["bounds"].items()},
        "where": chance(draw, 1, 2), "extra": pick(draw, ["", "", "const", "lifetime"]), "default": chance(draw, 1, 6),
        "debug": "hand" if no_debug else pick(draw, ["derive", "hand"]), "variants": vs, "insts": insts,
    }  # fmt: skip


class C10(engine.Prop):
    id = "C10"
    title = "Generic error types implement Display and Error under exactly the bounds their messages and sources need"
    rule = "a message or a source uses a field whose type mentions a type parameter"
    per_worker = {"quick": 500, "thorough": 1000}
    rounds = {"quick": 3, "thorough": 14}

    def configs(self):
        return ["stable"]

    def strategy(self):
        return st.composite(case)()

    def generics(self, c):
        ps, wh = [], []
        if c["extra"] == "lifetime":
            ps.append("'life")
        for p in c["params"]:
            bs = ["kit::Assoc"] if p in c["assoc"] else []
            bs += ["std::fmt::" + b for b in c["bounds"].get(p, ())]
            if any("'static" in f["t"] and f["p"] == p for v in c["variants"] for f in v["fields"]):
                bs.append("'static")
            if bs and c["where"]:
                wh.append(f"{p}: {' + '.join(bs)}")
                ps.append(p)
            else:
                ps.append(p + (": " + " + ".join(bs) if bs else ""))
        if c["extra"] == "const":
            ps.append("const NN: usize")
        d = list(ps)
        if c["default"] and c["extra"] != "const":
            d[-1] += " = " + ("kit::HasOut<kit::AllFmt>" if c["params"][-1] in c["assoc"] else "kit::AllFmt")
        use = (["'life"] if c["extra"] == "lifetime" else []) + c["params"] + (["NN"] if c["extra"] == "const" else [])
        return "<" + ", ".join(d) + ">", "<" + ", ".join(ps) + ">", "<" + ", ".join(use) + ">", wh

    def ty(self, f, c, inst=None):
        m = lambda p: p if inst is None else inst[c["params"].index(p)]  # noqa: E731
        t = f["t"]
        p = m(f["p"])
        if inst is not None and f["p"] in c["assoc"]:
            p = f"kit::HasOut<{p}>"
            t = t.replace("P::Out", "<P as kit::Assoc>::Out")
        q = m(f["q"])
        if inst is not None and f["q"] in c["assoc"]:
            q = f"kit::HasOut<{q}>"
        r = sub(t, p, q)
        return f"Option<{r}>" if f.get("opt") else r

    def val(self, f, c, inst):
        def mv(p):
            m = BY[inst[c["params"].index(p)]]
            if p in c["assoc"]:
                return f"kit::HasOut({m[1]})", f"kit::HasOut<{m[0]}>"
            return m[1], m[0]

        p, tp = mv(f["p"])
        q, tq = mv(f["q"])
        if f["k"] == "assoc":
            p = p[len("kit::HasOut("):-1]
        r = subv(f["v"], p, q, tp, tq)
        return f"Some({r})" if f.get("opt") else r

    def attr(self, v):
        if v["kind"] == "transparent":
            return "#[error(transparent)]"
        if v["kind"] == "fmt":
            return "#[error(fmt = kit::any_fmt)]" if len(v["fields"]) == 1 else "#[error(fmt = kit::any_fmt2)]"
        s = "m"
        for i, tr, flags, *space in v["msg"]:
            f = v["fields"][i]
            spec = flags + tr
            s += " {" + (gen.unraw(f["name"]) if f["name"] else str(i)) + (":" + spec if spec else "") + "".join(space) + "}"
        return f'#[error("{s}")]'

    def decl(self, c, mode):
        decl_g, _, use, wh = self.generics(c)
        w = " where " + ", ".join(wh) if wh else ""
        derives = (["Debug"] if c["debug"] == "derive" else []) + (["thiserror::Error"] if mode == "derive" else [])
        out = [f"#[derive({', '.join(derives)})]"] if derives else []

        def fields(v, vis):
            fs = []
            for f in v["fields"]:
                a = " ".join(f["attrs"]) if mode == "derive" else ""
                fs.append(f"{a} {vis} " + (f"{f['name']}: " if v["shape"] == "named" else "") + self.ty(f, c))
            return fs

        extra = self.phantom(c)
        if c["kind"] == "struct":
            v = c["variants"][0]
            if mode == "derive":
                out.append(self.attr(v))
            fs = fields(v, "pub")
            if v["kind"] == "msg":
                fs.append("pub phantom: " + extra if v["shape"] == "named" else "pub " + extra)
                v["phantom"] = True
            if v["shape"] == "named":
                out.append(f"pub struct T{decl_g}{w} {{ {', '.join(fs)} }}")
            else:
                out.append(f"pub struct T{decl_g}({', '.join(fs)}){w};")
        else:
            out.append(f"pub enum T{decl_g}{w} {{")
            for v in c["variants"]:
                if mode == "derive":
                    out.append("    " + self.attr(v))
                b = ", ".join(fields(v, ""))
                out.append(f"    {v['name']}" + (f"{{ {b} }}," if v["shape"] == "named" else f"({b}),"))
            if mode == "derive":
                out.append('    #[error("phantom")]')
            out.append(f"    Phantom({extra}), }}")
        return "\n".join(out)

    def phantom(self, c):
        x = list(c["params"]) + (["&'life ()"] if c["extra"] == "lifetime" else []) + (["[u8; NN]"] if c["extra"] == "const" else [])
        return f"kit::PhantomData<fn({', '.join(x)})>"

    def usable(self, c):
        # A transparent struct has no room for the phantom field: every parameter must be used.
        v = c["variants"][0]
        return c["kind"] == "enum" or v["kind"] == "msg"

    def emit(self, c, mode, cfg):
        if not self.usable(c):
            f = c["variants"][0]["fields"][0]
            used = {f["p"]} | ({f["q"]} if "Q" in f["t"] else set())
            if used != set(c["params"]) or c["extra"]:
                c = dict(c, kind="enum", variants=[dict(c["variants"][0], name="A")])
        c["variants"] = [dict(v) for v in c["variants"]]
        out = [self.decl(c, mode)]
        _, impl_g, use, wh = self.generics(c)
        w = " where " + ", ".join(wh) if wh else ""
        if c["debug"] == "hand":
            out.append(f"impl{impl_g} std::fmt::Debug for T{use}{w} {{ fn fmt(&self, f: &mut kit::Fmt) -> kit::FmtResult {{ f.write_str(\"dbg\") }} }}")
        need_d, need_e = [], []
        for v in c["variants"]:
            for i, tr, *_ in v["msg"] if v["kind"] == "msg" else []:
                if v["fields"][i]["k"] not in ("plain", "other"):
                    need_d.append((v["fields"][i], "std::fmt::" + TRAITS[tr]))
            for f in v["fields"]:
                if f["role"] == "source":
                    need_e.append((f, "std::error::Error"))
                    if v["kind"] == "transparent":
                        need_d.append((f, "std::fmt::Display"))
        if mode == "hand":
            base = lambda f: dict(f, opt=False)  # noqa: E731
            wd = ", ".join(wh + [f"{self.ty(f, c)}: {t}" for f, t in need_d])
            we = ", ".join(wh + [f"{self.ty(base(f), c)}: {t}" + (" + 'static" if f["attrs"] or f["name"] == "source" and any(f is g for v in c["variants"] if v["kind"] == "msg" for g in v["fields"]) else "") for f, t in need_e] + ["Self: std::fmt::Debug + std::fmt::Display"])
            arms = ""
            for v in c["variants"]:
                p = self.pat(c, v)
                arms += f"{p} => {self.body(v)}, "
            if c["kind"] == "enum":
                arms += 'T::Phantom(_) => f.write_str("phantom"),'
            out.append(f"impl{impl_g} std::fmt::Display for T{use} where {wd} {{ fn fmt(&self, f: &mut kit::Fmt) -> kit::FmtResult {{ match self {{ {arms} }} }} }}")
            out.append(f"impl{impl_g} std::error::Error for T{use} where {we} {{}}")
        out += self.lent(c, need_d, need_e)
        out.append("pub fn run(cx: &mut kit::Cx) {")
        for n, inst in enumerate(c["insts"]):
            ti = [f"kit::HasOut<{m}>" if p in c["assoc"] else m for p, m in zip(c["params"], inst)]
            ti = (["'static"] if c["extra"] == "lifetime" else []) + ti + (["3"] if c["extra"] == "const" else [])
            out.append(f"    {{ type I = T<{', '.join(ti)}>;")
            d = " && ".join(["true"] + [f"kit::impls!({self.ty(f, c, inst)}: {t})" for f, t in need_d])
            e = " && ".join(["true"] + [f"kit::impls!({self.ty(dict(f, opt=False), c, inst)}: {t})" for f, t in need_e])
            out.append(f"      let (d, e) = ({d}, {e});")
            out.append(f"      let g = kit::impls!(I: std::fmt::Debug);")
            out.append(f"      cx.eq(\"instance {n} {', '.join(ti)}: Display\".replace('\"', \"\").as_str(), kit::impls!(I: std::fmt::Display), d);")
            out.append(f"      cx.eq(\"instance {n} {', '.join(ti)}: Error\", kit::impls!(I: std::error::Error), d && e && g);")
            out.append("    }")
        inst = c["insts"][-2 if not need_e else -1]
        ti = [f"kit::HasOut<{m}>" if p in c["assoc"] else m for p, m in zip(c["params"], inst)]
        ti = (["'static"] if c["extra"] == "lifetime" else []) + ti + (["3"] if c["extra"] == "const" else [])
        if self.shows(c, need_d, inst):
            for v in c["variants"]:
                fs = []
                for i, f in enumerate(v["fields"]):
                    fs.append(f"{f['name'] or i}: {self.val(f, c, inst)}")
                if v.get("phantom"):
                    fs.append(("phantom" if v["shape"] == "named" else str(len(v["fields"]))) + ": kit::PhantomData")
                pth = "T" if c["kind"] == "struct" else f"T::<{', '.join(ti)}>::{v['name']}"
                out.append(f"    {{ let v: T<{', '.join(ti)}> = {pth} {{ {', '.join(fs)} }};")
                out.append(f"      let w = kit::RefFmt(|f: &mut kit::Fmt| match &v {{ {self.pat(c, v)} => {self.body(v)}, _ => unreachable!() }});")
                out.append('      cx.show1("message", &v, &w); }')
        out.append("}")
        return "\n".join(out)

    def lent(self, c, need_d, need_e):
        """An instance with a type that borrows: Display for any lifetime, Error unless there is a source."""
        if any("'static" in f["t"] for v in c["variants"] for f in v["fields"]) or not self.shows(c, need_d, ["kit::Leaf"] * len(c["params"])):
            return []
        if any(t.endswith(x) for _, t in need_d for x in ("Hex", "Octal", "Binary", "Exp", "Pointer")):
            return []
        ti = [f"kit::HasOut<kit::Borrowed<'q>>" if p in c["assoc"] else "kit::Borrowed<'q>" for p in c["params"]]
        ti = (["'q"] if c["extra"] == "lifetime" else []) + ti + (["3"] if c["extra"] == "const" else [])
        t = f"T<{', '.join(ti)}>"
        out = [f"pub fn shown<'q>(_: &'q u8) {{ fn is<X: std::fmt::Display>() {{}} is::<{t}>(); }}"]
        if all(v["kind"] != "msg" or all(f["role"] != "source" for f in v["fields"]) for v in c["variants"]):
            if all(f["t"] in ("P", "kit::Gen<P>", "Box<P>", "std::sync::Arc<P>", "<u8 as kit::Rel<P>>::Out") for f, _ in need_e) and (
                    c["debug"] == "hand" or all(f["t"] in ("P", "kit::Gen<P>", "Box<P>", "u8", "String") for v in c["variants"] for f in v["fields"])):
                out.append(f"pub fn failed<'q>(_: &'q u8) {{ fn is<X: std::error::Error>() {{}} is::<{t}>(); }}")
        return out

    def shows(self, c, need_d, inst):
        """Whether the instance is known to implement Display."""
        for f, t in need_d:
            tr = t.split("::")[-1]
            for p in [f["p"]] + ([f["q"]] if "Q" in f["t"] else []):
                m = BY[inst[c["params"].index(p)]]
                key = next(k for k, x in TRAITS.items() if x == tr) or "D"
                if f["t"] in ("kit::Always<P>", "std::marker::PhantomData<P>"):
                    continue
                if key not in m[2] and not (key == "p" and f["t"].startswith(("Box", "std::"))):
                    return False
                if f["t"] == "kit::NeedsHex<P>" and "x" not in m[2]:
                    return False
                if p in c["assoc"] and f["k"] != "assoc":
                    return False
                if f["t"] == "kit::First<u8, P>" and key not in "DxXob?eE":
                    return False
        return True

    def pat(self, c, v):
        pth = "T" if c["kind"] == "struct" else "T::" + v["name"]
        return pth + " { " + "".join(f"{f['name'] or i}: r{i}, " for i, f in enumerate(v["fields"])) + ".. }"

    def body(self, v):
        if v["kind"] == "transparent":
            return "std::fmt::Display::fmt(r0, f)"
        if v["kind"] == "fmt":
            return 'f.write_str("any")' if len(v["fields"]) == 1 else 'f.write_str("any2")'
        s = "m"
        args = ""
        for n, (i, tr, flags, *_) in enumerate(v["msg"]):
            spec = flags + tr
            s += " {" + (":" + spec if spec else "") + "}"
            args += f", *r{i}" if tr == "p" else f", r{i}"
        return f'write!(f, "{s}"{args})'

    def nontrivial(self, c):
        return any(
            any(v["fields"][m[0]]["k"] != "plain" for m in v["msg"]) or any(f["role"] == "source" for f in v["fields"])
            for v in c["variants"]
        )

    def labels(self, c):
        out = {c["kind"], "debug " + c["debug"]}
        if c["extra"]:
            out.add("also a " + c["extra"] + " parameter")
        if c["bounds"]:
            out.add("bounds by the user, " + ("where" if c["where"] else "inline"))
        out.add(f"{len(c['params'])} type parameters")
        for v in c["variants"]:
            out.add("variant " + v["kind"])
            for i, tr, *_ in v["msg"]:
                out.add("type " + v["fields"][i]["t"])
                out.add("trait " + TRAITS[tr])
            for f in v["fields"]:
                if f["role"] == "source":
                    out.add("source type " + f["t"])
        return sorted(out)


PROP = C10()
