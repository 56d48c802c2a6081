import re

from hypothesis import strategies as st

from .. import build, defs, engine, exprs, gen
from ..engine import Fail, HarnessError, Ok, Work, compile_src, span_lines
from ..gen import chance, num, pick

BT = "std::backtrace::Backtrace"
ERRS = ["kit::Leaf", "kit::Leaf2", "kit::Node", "std::io::Error", "std::fmt::Error", "Box<kit::Leaf>", "kit::Borrowed<'static>",
        "&'static kit::Leaf", "Box<dyn std::error::Error + Send + Sync>", "kit::anyhow::Error", "std::num::ParseIntError"]  # fmt: skip
LIVE = ["kit::Borrowed<'a>", "&'a kit::Leaf", "Box<kit::Borrowed<'a>>", "&'a kit::Borrowed<'static>", "kit::GLeaf<&'a str>",
        "std::sync::Arc<Box<kit::Borrowed<'a>>>"]  # fmt: skip
PLAIN = ["u8", "String", "i64", "bool", "&'static str"]

# Attributes of the non-field kind, by symbol: text ({n}: number of fields).
NONFIELD = {
    "display": '#[error("m")]', "display_args": '#[error("m {next}{x}", {pos}x = {named})]', "display_comma": '#[error("m",)]',
    "display0": '#[error("m {0}")]', "display0pos": '#[error("m {0} {next}", {pos})]', "display0named": '#[error("m {0} {k}", k = {named})]',
    "display0mid": '#[error("m {k} {0} {next}", {pos}k = {named})]',
    "transparent": "#[error(transparent)]", "fmt": "#[error(fmt = kit::fmt{n})]",
    "source": "#[source]", "from": "#[from]", "backtrace": "#[backtrace]",
}  # fmt: skip
BAD = [
    "#[error]", '#[error = "m"]', "#[error()]", "#[error(5)]", '#[error(concat!("m"))]', "#[error(transparent, 1)]", '#[error(b"m")]',
    "#[error(fmt)]", "#[error(fmt = )]", "#[error(fmt = 5)]", "#[error(fmt = kit::fmt0, 1)]", "#[error(Transparent)]", "#[error('m')]",
    "#[error(kit::MSG)]", "#[error(transparent = true)]", "#[error{}]", "#[error[]]", "#[error((\"m\"))]", "#[error(-1)]",
    "#[error(display = \"m\")]", "#[source(x)]", '#[source = "x"]', "#[source()]", "#[backtrace(x)]", '#[backtrace = "x"]', "#[backtrace()]",
]  # fmt: skip
IGNORED = ["/// doc", "#[from(skip)]", '#[from = "x"]', "#[from(forward)]", "#[allow(dead_code)]", '#[doc = "error"]', "#[cfg(all())]",
           "#[from()]"]  # fmt: skip
BADMSG = r"expected|unexpected"


def text(a, n, c):
    """The attribute; c["args"]: the explicit arguments of messages, c["odd"]: others for what is rejected anyway."""
    if a not in NONFIELD:
        return a
    args = c.get("args") or ["7", "8"]
    if c.get("odd") and violations(c):
        args = c["odd"]
    args, named = args[:-1] or args, args[-1]
    s = NONFIELD[a].replace("{n}", str(n)).replace("{next}", "{} " * len(args))
    return s.replace("{pos}", "".join(e + ", " for e in args)).replace("{named}", named)


def dups(attrs, where):
    """Faults that the attributes of one place have on their own."""
    out = []
    if any(a in BAD for a in attrs):
        # It may count as one of its kind before the rest of it is read.
        out.append(("malformed", BADMSG + "|duplicate|only one|cannot have both"))
    if len([a for a in attrs if a.startswith("display")]) > 1:
        out.append(("two messages", r"only one #\[error"))
    for k, m in [("transparent", r"duplicate #\[error\(transparent"), ("fmt", r"duplicate #\[error\(fmt"), ("source", r"duplicate #\[source\]"),
                 ("from", r"duplicate #\[from\]"), ("backtrace", r"duplicate #\[backtrace\]")]:  # fmt: skip
        if attrs.count(k) > 1:
            out.append(("duplicate " + k, m))
    return out


def nonfield(attrs):
    out = []
    for k in ("source", "from", "backtrace"):
        if k in attrs:
            out.append((k + " outside a field", rf"not expected here; the #\[{k}\]"))
    d = any(a.startswith("display") for a in attrs)
    t, f = "transparent" in attrs, "fmt" in attrs
    if t and d:
        out.append(("transparent and message", r"both #\[error\(transparent\)\] and a display"))
    if t and f:
        out.append(("transparent and fmt", r"both #\[error\(transparent\)\] and #\[error\(fmt"))
    if d and f:
        out.append(("fmt and message", r"both #\[error\(fmt = \.\.\.\)\] and a format"))
    return out


WORDINGS = (
    r"not expected here; the #\[|both #\[error|needs to go outside|duplicate #\[|only one #\[error|only supported|no fields other than|non-static lifetimes"
    r"|ambiguous reference|requires exactly one|can't contain|missing #\[error|union as errors|expected|unsupported"
)


def is_bt(ty):
    return ty == BT


def fields_rules(fields):
    out = []
    for f in fields:
        out += dups(f["attrs"], "field")
        if any(a.startswith("display") for a in f["attrs"]) or "fmt" in f["attrs"]:
            out.append(("message on a field", r"not expected here; the #\[error"))
        if "transparent" in f["attrs"]:
            out.append(("transparent on a field", r"needs to go outside"))
    having = {k: [i for i, f in enumerate(fields) if k in f["attrs"]] for k in ("from", "source", "backtrace")}
    for k, at in having.items():
        if len(at) > 1:
            out.append((f"two fields with #[{k}]", rf"duplicate #\[{k}\]"))
    fr, so, bt = having["from"], having["source"], having["backtrace"]
    if fr and so and set(fr) != set(so):
        out.append(("from is not the source", r"only supported on the source field|duplicate"))
    if fr:
        if bt:
            most = 1 + (bt[0] != fr[0])
        else:
            most = 1 + any(is_bt(f["ty"]) for f in fields)
        if len(fields) > most:
            out.append(("from beside other fields", r"no fields other than source and backtrace|duplicate"))
    for i in set(fr) | set(so):
        if fields[i]["ty"] in LIVE:
            out.append(("borrowed source", "non-static lifetimes|duplicate"))
    return out


def kind_of(attrs):
    """The display of a struct or variant by its own attributes."""
    for a in attrs:
        if a.startswith("display") or a in ("transparent", "fmt"):
            return a
    return None


def message_rules(attrs, v):
    if any(a in ("display0pos", "display0mid") for a in attrs) and v["shape"] == "tuple" and v["fields"]:
        return [("ambiguous position", "ambiguous reference")]
    return []


def violations(c):
    if c["kind"] == "union":
        return [("union", "union as errors|" + BADMSG)]
    out = dups(c["attrs"], "top") + nonfield(c["attrs"])
    top = kind_of(c["attrs"])
    if c["kind"] == "struct":
        v = c["variants"][0]
        out += fields_rules(v["fields"])
        if "transparent" in c["attrs"]:
            if len(v["fields"]) != 1:
                out.append(("transparent without exactly one field", "requires exactly one field"))
            if any("source" in f["attrs"] for f in v["fields"]):
                out.append(("transparent with #[source]", "can't contain"))
        if "fmt" in c["attrs"]:
            out.append(("fmt on a struct", "only supported in enums"))
        return out + message_rules(c["attrs"], v)
    own = [kind_of(v["attrs"]) for v in c["variants"]]
    shown = displayed(c)
    for v, o in zip(c["variants"], own):
        out += dups(v["attrs"], "variant") + nonfield(v["attrs"]) + fields_rules(v["fields"])
        k = o or top
        transparent = "transparent" in v["attrs"] or o is None and "transparent" in c["attrs"]
        if transparent:
            if len(v["fields"]) != 1:
                out.append(("transparent without exactly one field", "requires exactly one field"))
            if any("source" in f["attrs"] for f in v["fields"]):
                out.append(("transparent with #[source]", "can't contain"))
        if shown and k is None:
            out.append(("variant without a message", r"missing #\[error"))
        out += message_rules(v["attrs"] if o else c["attrs"], v)
    return out


def displayed(c):
    """Whether the derive implements Display."""
    if c["kind"] == "struct" or kind_of(c["attrs"]) is not None:
        return kind_of(c["attrs"]) is not None
    kinds = [[a for a in v["attrs"] if kind_of([a])] for v in c["variants"]]
    return any(a != "transparent" for k in kinds for a in k) or all(kinds)


def typed(c, cfg):
    """Whether a case without a violation is also well typed."""
    top = kind_of(c["attrs"])
    froms = set()
    for v in c["variants"]:
        k = (kind_of(v["attrs"]) if c["kind"] == "enum" else None) or top
        n = len(v["fields"])
        if k == "fmt" and kind_of(v["attrs"]) is None and n != c["top_n"]:
            return False
        if k in ("display0", "display0named"):
            if v["shape"] != "tuple" or not n or v["fields"][0]["ty"] not in PLAIN + ["kit::Leaf", "kit::Node", "std::io::Error"]:
                return False
        if k in ("display0pos", "display0mid"):
            if v["shape"] == "tuple" and n:
                return False
            # {0} and {} are the same argument then.
        if k == "transparent" and v["fields"][0]["ty"] not in ERRS:
            return False
        for f in v["fields"]:
            src = "source" in f["attrs"] or "from" in f["attrs"] or f["name"] == "source"
            if src and f["ty"] not in ERRS:
                return False
            if "backtrace" in f["attrs"] and not (src or is_bt(f["ty"])):
                return False
            if ("backtrace" in f["attrs"] or is_bt(f["ty"])) and cfg != "nightly":
                return False
            if "from" in f["attrs"]:
                if f["ty"] in froms:
                    return False
                froms.add(f["ty"])
        if len([1 for f in v["fields"] if is_bt(f["ty"])]) > 1:
            return False
    return True


def field(draw, nightly):
    ty = pick(draw, ERRS * 2 + PLAIN * 2 + LIVE + ([BT] * 4 if nightly else []))
    return {"ty": ty, "attrs": [], "name": None}


def base(draw, nightly):
    """A valid definition."""
    kind = pick(draw, ["struct"] * 5 + ["enum"] * 7)
    c = {"kind": kind, "attrs": [], "variants": [], "generics": pick(draw, ["", "", "", "", "type", "where", "const", "both"]),
         "debug": True, "top_n": 0}  # fmt: skip
    style = pick(draw, ["messages", "messages", "messages", "top", "none", "all transparent"])
    names = [None] if kind == "struct" else gen.names(draw, pick(draw, [0, 1, 1, 2, 2, 3]), defs.VNAMES)
    for nm in names:
        shape = pick(draw, ["named", "tuple", "named", "tuple", "unit"])
        v = {"name": nm, "shape": shape, "attrs": [], "fields": []}
        how = pick(draw, ["plain", "plain", "source", "source", "from", "from", "from+bt" if nightly else "from", "transparent"])
        if style == "all transparent":
            how = "transparent"
        elif style != "messages" and how == "transparent":
            how = "plain"
        if how != "plain" and shape == "unit":
            v["shape"] = shape = "tuple"
        if how == "transparent":
            v["fields"] = [{"ty": pick(draw, ERRS), "attrs": [], "name": None}]
            if chance(draw, 1, 3):
                v["fields"][0]["attrs"] = ["from"]
        elif how.startswith("from"):
            v["fields"] = [{"ty": pick(draw, ERRS), "attrs": ["from"] + (["source"] if chance(draw, 1, 3) else []), "name": None}]
            if how == "from+bt":
                v["fields"].insert(num(draw, 0, 1), {"ty": BT, "attrs": ["backtrace"] if chance(draw, 1, 2) else [], "name": None})
            elif nightly and chance(draw, 1, 4):
                v["fields"][0]["attrs"].append("backtrace")
        elif how == "source":
            v["fields"] = [field(draw, False) for _ in range(num(draw, 0, 2))]
            v["fields"].insert(num(draw, 0, len(v["fields"])), {"ty": pick(draw, ERRS), "attrs": ["source"], "name": None})
        elif shape != "unit":
            v["fields"] = [field(draw, nightly) for _ in range(num(draw, 0, 3))]
        if v["shape"] == "named":
            for f, n in zip(v["fields"], gen.names(draw, len(v["fields"]), ["a", "b", "c", "d", "err", "r#type"])):
                f["name"] = n
        if style == "messages" or how == "transparent":
            if how == "transparent":
                m = "transparent"
            elif v["shape"] == "tuple" and v["fields"] and v["fields"][0]["ty"] in PLAIN:
                m = pick(draw, ["display", "display0", "display0named"])
            elif v["shape"] != "tuple":
                m = pick(draw, ["display", "display_args", "display_comma", "display0pos", "display0mid"])
            else:
                m = pick(draw, ["display", "display_args", "fmt" if kind == "enum" else "display"])
            (c if kind == "struct" else v)["attrs"].append(m)
        c["variants"].append(v)
    if style == "top":
        c["attrs"].append(pick(draw, ["display", "display_args", "fmt" if kind == "enum" and len({len(v["fields"]) for v in c["variants"]}) == 1 else "display"]))
        if c["variants"]:
            c["top_n"] = len(c["variants"][0]["fields"])
    return c


def place(draw, c):
    """The attribute list of a random place and whether that is a field."""
    places = [(c["attrs"], "top")] * 2
    if c["kind"] == "enum":
        places += [(v["attrs"], "variant") for v in c["variants"]] * 2
    for v in c["variants"]:
        places += [(f["attrs"], "field") for f in v["fields"]] * 2
    return pick(draw, places)


def mutate(draw, c):
    k = num(draw, 0, 12)
    at, where = place(draw, c)
    if k <= 2:
        at.insert(num(draw, 0, len(at)), pick(draw, ["source", "from", "backtrace"] if where == "field" or chance(draw, 1, 3) else ["display", "transparent", "fmt", "display0pos"]))
    elif k == 3:
        at.insert(num(draw, 0, len(at)), pick(draw, BAD))
    elif k == 4 and at:
        at.insert(num(draw, 0, len(at)), pick(draw, at))
    elif k == 5 and at:
        at.pop(num(draw, 0, len(at) - 1))
    elif k == 6 and c["variants"]:
        v = pick(draw, c["variants"])
        if v["shape"] != "unit":
            f = field(draw, False)
            f["name"] = f"m{len(v['fields'])}" if v["shape"] == "named" else None
            v["fields"].insert(num(draw, 0, len(v["fields"])), f)
    elif k == 7 and c["variants"]:
        v = pick(draw, c["variants"])
        if v["fields"]:
            v["fields"].pop(num(draw, 0, len(v["fields"]) - 1))
    elif k == 8:
        fs = [f for v in c["variants"] for f in v["fields"] if "source" in f["attrs"] or "from" in f["attrs"]]
        if fs:
            pick(draw, fs)["ty"] = pick(draw, LIVE)
    elif k >= 11 and any(len(v["fields"]) > 1 for v in c["variants"]):
        # The mark of one field on another field too.
        v = pick(draw, [v for v in c["variants"] if len(v["fields"]) > 1])
        a = pick(draw, ["source", "from", "backtrace"])
        for f in v["fields"]:
            if a not in f["attrs"]:
                f["attrs"].append(a)
    elif k == 10 and c["kind"] == "enum" and c["variants"]:
        pick(draw, c["variants"])["attrs"].clear()
    elif k == 9 and where == "field":
        at.append(pick(draw, ["display", "transparent", "fmt"]))
    else:
        at.insert(num(draw, 0, len(at)), pick(draw, list(NONFIELD)))


def ambiguous(draw):
    """{0} of a tuple struct or variant beside an explicit positional argument, whatever expression that is."""
    n = num(draw, 1, 3)
    mode = pick(draw, ["display0pos", "display0mid"])
    fs = [{"ty": pick(draw, PLAIN), "attrs": [], "name": None} for _ in range(num(draw, 1, 3))]
    kind = pick(draw, ["struct", "enum"])
    vs = [{"name": "A" if kind == "enum" else None, "shape": "tuple", "attrs": [mode] if kind == "enum" else [], "fields": fs}]
    return {
        "kind": kind, "attrs": [] if kind == "enum" else [mode], "variants": vs, "generics": "", "debug": True, "top_n": 0,
        "odd": [exprs.text(pick(draw, pick(draw, [exprs.UNSHOWN, exprs.UNSHOWN, exprs.VALUES, exprs.OTHERS])), num(draw, 0, 9)) for _ in range(n + 1)],
    }  # fmt: skip


def case(draw):
    if chance(draw, 1, 6):
        return ambiguous(draw)
    nightly = chance(draw, 1, 3)
    c = base(draw, nightly)
    n = pick(draw, [2, 2, 2, 3, 4])
    c["args"] = [exprs.text(pick(draw, exprs.VALUES), num(draw, 0, 9)) for _ in range(n)]
    if chance(draw, 1, 2):
        c["odd"] = [exprs.text(pick(draw, pick(draw, [exprs.UNSHOWN, exprs.UNSHOWN, exprs.VALUES, exprs.OTHERS])), num(draw, 0, 9)) for _ in range(n)]
    for _ in range(pick(draw, [0, 1, 1, 1, 1, 2, 2, 3])):
        mutate(draw, c)
    for _ in range(pick(draw, [0, 0, 0, 1, 2])):
        at, where = place(draw, c)
        at.insert(num(draw, 0, len(at)), pick(draw, IGNORED))
    if chance(draw, 1, 40):
        c["kind"] = "union"
        c["attrs"] = [a for a in c["attrs"] if a != "from"]
        c["variants"] = [{"name": None, "shape": "named", "attrs": [], "fields": [{"ty": "u8", "attrs": [], "name": "a"}]}]
    if chance(draw, 1, 12):
        c["debug"] = False
    if any("'a" in f["ty"] for v in c["variants"] for f in v["fields"]):
        c["lt"] = pick(draw, ["a", "err", "de", "stat", "statics", "_b", "E"])
    return c


GENERICS = {
    "": ("", "", ""), "type": ("<X: std::fmt::Debug>", "", "u8"), "where": ("<X>", " where X: std::fmt::Debug + Clone,", "u8"),
    "const": ("<const N: usize>", "", "3"), "both": ("<X, const N: usize>", " where X: std::fmt::Debug, [X; N]: Sized", "u8, 3"),
}  # fmt: skip


class C11(engine.Prop):
    id = "C11"
    title = "Definitions are accepted exactly if the attribute rules hold; a rejected one gets one error and still has the impls"
    rule = "a rule is broken, or attributes stand in at least two places"
    per_worker = {"quick": 1300, "thorough": 2000}
    rounds = {"quick": 3, "thorough": 14}

    def configs(self):
        return ["stable", "nightly", "stable", "nightly", "synfull"]

    def strategy(self):
        return st.composite(case)()

    def crate_attrs(self, cfg):
        return "#![feature(error_generic_member_access)]\n" if cfg == "nightly" else ""

    def item(self, c, mode):
        derive = mode == "derive"
        g, w, _ = GENERICS[c["generics"]]
        live = any("'a" in f["ty"] for v in c["variants"] for f in v["fields"])
        if live:
            g = "<'a" + (", " + g[1:] if g else ">")
        ds = (["Debug"] if c["debug"] and c["kind"] != "union" else []) + (["thiserror::Error"] if derive else [])
        keep = ("/", "#[allow", "#[doc", "#[cfg")

        def at(attrs, n, ind=""):
            if derive:
                return "".join(ind + text(a, n, c) + "\n" for a in attrs)
            return "".join(ind + a + "\n" for a in attrs if a.startswith(keep))

        out = f"#[derive({', '.join(ds)})]\n" if ds else ""
        out += at(c["attrs"], c["top_n"])
        ph = {"type": "X", "where": "X", "const": "[u8; N]", "both": "[X; N]"}.get(c["generics"])
        if live and c["kind"] == "union":
            live = False

        def body(v, vis):
            if v["shape"] == "unit":
                return ""
            fs = "".join(at(f["attrs"], len(v["fields"]), "        ") + "        " + vis + (f"{f['name']}: " if f["name"] else "") + f["ty"] + ",\n" for f in v["fields"])
            return f" {{\n{fs}    }}" if v["shape"] == "named" else f"(\n{fs}    )"

        if c["kind"] == "enum":
            out += f"pub enum T{g}{w} {{\n"
            for v in c["variants"]:
                out += at(v["attrs"], len(v["fields"]), "    ") + "    " + v["name"] + body(v, "") + ",\n"
            if ph:
                out += ('    #[error("phantom")]\n' if derive and displayed(c) else "") + f"    Phantom({ph}),\n"
            return out + "}\n"
        v = c["variants"][0]
        if c["kind"] == "union":
            return out + f"pub union T{body(v, 'pub ')}\n"
        if v["shape"] == "named":
            return out + f"pub struct T{g}{w}{body(v, 'pub ')}\n"
        return out + f"pub struct T{g}{body(v, 'pub ')}{w};\n"

    def fix(self, c):
        """A struct cannot have unused parameters: drop them."""
        if c["kind"] != "enum" and c["generics"] not in ("", "const"):
            c = dict(c, generics="")
        if c["kind"] == "union":
            c = dict(c, generics="")
        return c

    def expect(self, c, cfg):
        c = self.fix(c)
        vs = violations(c)
        if vs:
            return "reject", vs
        return ("accept" if typed(c, cfg) else "skip"), []

    def emit(self, c, mode, cfg):
        return re.sub(r"'a\b(?!')", "'" + c.get("lt", "a"), self.emit_a(c, mode, cfg))

    def emit_a(self, c, mode, cfg):
        c = self.fix(c)
        exp, _ = self.expect(c, cfg)
        out = "use kit::{raw, W9};\n" + self.item(c, mode)
        if c["kind"] == "union":
            if mode == "derive":
                return out + "pub fn run(cx: &mut kit::Cx) {}"
            return out + "pub fn run(cx: &mut kit::Cx) {}"
        g, w, inst = GENERICS[c["generics"]]
        live = any("'a" in f["ty"] for v in c["variants"] for f in v["fields"])
        use = ", ".join((["'a"] if live else []) + (["X"] if "X" in g else []) + (["N"] if "N" in g else []))
        use = f"<{use}>" if use else ""
        if live:
            g = "<'a" + (", " + g[1:] if g else ">")
        display = mode == "hand" or exp == "accept" and not displayed(c)
        if display:
            out += f"impl{g} std::fmt::Display for T{use}{w} {{ fn fmt(&self, f: &mut kit::Fmt) -> kit::FmtResult {{ Ok(()) }} }}\n"
        if not c["debug"] and exp != "reject":
            out += f"impl{g} std::fmt::Debug for T{use}{w} {{ fn fmt(&self, f: &mut kit::Fmt) -> kit::FmtResult {{ Ok(()) }} }}\n"
        if not c["debug"] and exp == "reject":
            return out + "pub fn run(cx: &mut kit::Cx) {}"
        if mode == "hand":
            out += f"impl{g} std::error::Error for T{use}{w} {{}}\n"
        ti = ", ".join((["'x"] if live else []) + ([inst] if inst else []))
        ti = f"<{ti}>" if ti else ""
        out += f"pub fn need<'x>(t: &'x T{ti}) -> &'x (dyn std::error::Error + 'x) {{ t }}\npub fn run(cx: &mut kit::Cx) {{}}"
        return out

    def verdicts(self, cases, cfg, mode="derive", edition="2021"):
        exp = [self.expect(c, cfg) for c in cases]
        res = [Ok(1) for _ in cases]
        built = build.build(cfg)
        if mode == "hand":
            groups = [("accept", list(range(len(cases))))]
        else:
            groups = [(k, [i for i, e in enumerate(exp) if e[0] == k]) for k in ("accept", "reject")]
        with Work() as wd:
            for kind, idx in groups:
                while idx:
                    batch = engine.Batch(self, cfg, mode)
                    src, ranges = batch.source([(i, cases[i]) for i in idx])
                    rc, _, diags, err = compile_src(built, wd, src, edition=edition, emit="metadata")
                    errs = {i: [] for i in idx}
                    lost = []
                    for d in diags:
                        if d["level"] != "error" or not d["spans"]:
                            if d["level"] == "error" and not d["message"].startswith("aborting"):
                                lost.append(d)
                            continue
                        ls = span_lines(d, "case.rs")
                        at = {i for p, lo, hi in ls for i, (a, b) in ranges.items() if a <= lo <= b and p} or {
                            i for p, lo, hi in ls for i, (a, b) in ranges.items() if a <= lo <= b
                        }
                        for i in at:
                            errs[i].append(d)
                        if not at:
                            lost.append(d)
                    if "panicked" in err and not any(errs.values()):
                        raise HarnessError("rustc: " + err[-2000:])
                    if lost and len(idx) > 1 and not any(errs.values()):
                        raise HarnessError("an error outside every case: " + str(lost[0].get("rendered"))[:2000])
                    if kind == "reject":
                        for i in idx:
                            res[i] = self.judge(exp[i][1], errs[i], cases[i])
                        break
                    bad = [i for i in idx if errs[i]]
                    for i in bad:
                        res[i] = Fail("rejected a valid definition", errs[i][0].get("rendered") or "")
                    if not bad:
                        if rc != 0:
                            raise HarnessError("rustc failed: " + err[-2000:])
                        break
                    idx = [i for i in idx if i not in bad]
        return res

    def judge(self, vs, errs, c):
        rules = ", ".join(v[0] for v in vs)
        show = "\n".join(e.get("rendered") or e["message"] for e in errs)
        if not errs:
            return Fail("accepted an invalid definition", f"broken rule: {rules}")
        own = [e for e in errs if not e["code"]]
        if not own:
            return Fail("not rejected by the derive", f"broken rule: {rules}\n{show}")
        if len(errs) > 1:
            return Fail("secondary errors", f"broken rule: {rules}\n{show}")
        # The wording of a message is free, unless it is that of a rule which is not broken.
        if not any(re.search(v[1], own[0]["message"]) for v in vs) and re.search(WORDINGS, own[0]["message"]):
            return Fail("another error than those of the broken rules", f"broken rule: {rules}\n{show}")
        return Ok(4)

    def nontrivial(self, c):
        n = bool(c["attrs"]) + sum(bool(v["attrs"]) for v in c["variants"]) + sum(bool(f["attrs"]) for v in c["variants"] for f in v["fields"])
        return bool(violations(self.fix(c))) or n >= 2

    def labels(self, c):
        out = {c["kind"]}
        exp, vs = self.expect(c, "nightly")
        out.add("expected: " + exp)
        out.update("broken: " + v[0] for v in vs)
        if len({v[0] for v in vs}) > 1:
            out.add("several rules broken")
        if c["generics"]:
            out.add("generic")
        if not c["debug"]:
            out.add("without Debug")
        return sorted(out)


PROP = C11()
