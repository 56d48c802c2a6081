"""Histories of operations on errors of generated types, against a model of what every error holds."""

from hypothesis import strategies as st

from .. import engine, gen
from ..gen import chance, num, pick

BOX = "Box<dyn std::error::Error + Send + Sync>"
ANY = "kit::anyhow::Error"
LITS = ["", "failed", "a: ", " ", "{}", "{x}", "}", "é ", "%", ": ", "[", "]", "\n", "'", '"']
NAMES = ["a", "x", "kind", "r#type", "id", "detail", "f", "err", "inner", "e", "cause_", "msg", "_u", "request"]
VN = ["A", "B", "Io", "Other", "None", "Some", "Ok", "r#Fn", "Wrapped"]
NUMSPEC = ["", "", "x", "#x", "08", "+", ">6", "<6", "^7", "#010b", "*>5"]

ITEMS = """
use std::sync::Mutex;
static LIVE: Mutex<(Vec<u64>, u64)> = Mutex::new((Vec::new(), 0));
/// Something that every error owns exactly once.
#[derive(Debug)]
pub struct Tok(pub u64);
impl Tok { pub fn new(n: u64) -> Tok { LIVE.lock().unwrap().0.push(n); Tok(n) } }
impl Drop for Tok {
    fn drop(&mut self) {
        let mut l = LIVE.lock().unwrap();
        match l.0.iter().position(|x| *x == self.0) { Some(i) => { l.0.remove(i); } None => l.1 += 1 }
    }
}
impl std::fmt::Display for Tok { fn fmt(&self, f: &mut kit::Fmt) -> kit::FmtResult { f.write_str("t")?; std::fmt::Display::fmt(&self.0, f) } }
pub fn reset() { *LIVE.lock().unwrap() = (Vec::new(), 0); }
pub fn live() -> (Vec<u64>, u64) { let l = LIVE.lock().unwrap(); let mut v = l.0.clone(); v.sort(); (v, l.1) }
pub fn messages(e: &(dyn std::error::Error + 'static)) -> Vec<String> {
    let mut out = vec![e.to_string()];
    let mut e = e;
    while let (Some(s), true) = (std::error::Error::source(e), out.len() < 3000) { out.push(s.to_string()); e = s; }
    out
}
pub fn idents(e: &(dyn std::error::Error + 'static), id: fn(&(dyn std::error::Error + 'static)) -> String) -> Vec<String> {
    let mut out = vec![id(e)];
    let mut e = e;
    while let (Some(s), true) = (std::error::Error::source(e), out.len() < 3000) { out.push(id(s)); e = s; }
    out
}
/// The same through the adaptor of another crate.
pub fn by_anyhow(e: &kit::anyhow::Error) -> Vec<String> { e.chain().map(|e| e.to_string()).collect() }
pub fn pass<T>(t: T) -> T { t }
pub fn look(cx: &mut kit::Cx, step: &str, e: &(dyn std::error::Error + 'static), id: fn(&(dyn std::error::Error + 'static)) -> String, msgs: &[&str], ids: &[&str]) {
    let own = |x: &[&str]| x.iter().map(|s| s.to_string()).collect::<Vec<String>>();
    cx.eq(&format!("{step}: messages"), messages(e), own(msgs));
    cx.eq(&format!("{step}: identities"), idents(e, id), own(ids));
}
/// Several threads read it at once.
pub fn share(cx: &mut kit::Cx, step: &str, e: &(dyn std::error::Error + Send + Sync + 'static), msgs: &[&str]) {
    let want: Vec<String> = msgs.iter().map(|s| s.to_string()).collect();
    let got: Vec<Vec<String>> = std::thread::scope(|sc| {
        let ts: Vec<_> = (0..3).map(|_| sc.spawn(|| messages(e))).collect();
        ts.into_iter().map(|t| t.join().unwrap()).collect()
    });
    cx.eq(&format!("{step}: messages in threads"), got, vec![want; 3]);
}
pub fn lives(cx: &mut kit::Cx, step: &str, want: &[u64]) { cx.eq(&format!("{step}: live"), live(), (want.to_vec(), 0)); }
"""

# ---------------------------------------------------------------------------
# Types.


def plain_fields(draw):
    out = []
    if chance(draw, 3, 4):
        out.append({"role": "tok"})
    if chance(draw, 1, 2):
        out.append({"role": "num"})
    if chance(draw, 1, 3):
        out.append({"role": "str"})
    return out


def variant(draw, name, i, generic, froms, total):
    kind = pick(draw, ["leaf", "leaf", "source", "source", "source", "from", "from", "transparent"])
    tos = [{"k": "t", "i": j} for j in range(i)] * 2 + [{"k": "box"}, {"k": "any"}]
    # Its own type, and those that come later: behind a pointer.
    tos += [{"k": "t", "i": i}] + ([{"k": "t", "i": num(draw, i, total - 1)}] if chance(draw, 1, 4) else [])
    if i == 0 and kind != "leaf" and not chance(draw, 1, 4):
        kind = "leaf"
    v = {"name": name, "shape": pick(draw, ["named", "tuple"]), "fields": [], "src": None}
    if kind == "leaf":
        v["fields"] = plain_fields(draw)
        if not v["fields"] and chance(draw, 1, 2):
            v["shape"] = "unit"
    else:
        to = pick(draw, tos)
        if generic and kind != "from":
            to = {"k": "param"}
        wrap = pick(draw, ["plain", "plain", "Box", "Arc", "Option", "Option<Box>"]) if to["k"] in ("t", "param") else pick(draw, ["plain", "plain", "Option"])
        if to["k"] == "t" and to["i"] >= i:
            wrap = pick(draw, ["Box", "Box", "Arc", "Option<Box>", "Option<Box>"])
            if kind == "transparent":
                wrap = "Box"
        if kind == "transparent" and wrap.startswith("Option"):
            wrap = "plain"
        if generic and to["k"] == "param":
            wrap = wrap if wrap in ("plain", "Option") else "plain"
        s = {"role": "src", "to": to, "wrap": wrap, "how": "source"}
        if kind == "from":
            bare = f"{to}{'' if wrap in ('plain', 'Option') else wrap.replace('Option<', '')}"
            if bare in froms or to["k"] == "t" and to.get("generic"):
                kind = "source"
            else:
                froms.add(bare)
                s["how"] = "from"
        if kind == "from":
            v["fields"] = [s]
        elif kind == "transparent":
            s["how"] = "transparent"
            if not generic and to["k"] != "param" and chance(draw, 1, 2):
                bare = f"{to}{'' if wrap == 'plain' else wrap}"
                if bare not in froms:
                    froms.add(bare)
                    s["how"] = "transparent from"
            v["fields"] = [s]
        else:
            v["fields"] = plain_fields(draw)
            v["fields"].insert(num(draw, 0, len(v["fields"])), s)
        v["src"] = v["fields"].index(s)
    if v["shape"] == "named":
        for f, n in zip(v["fields"], gen.names(draw, len(v["fields"]), NAMES)):
            f["name"] = n
            if f["role"] == "src" and f["how"] == "source" and chance(draw, 1, 2):
                f["name"], f["how"] = "source", "name"
    else:
        for f in v["fields"]:
            f["name"] = None
    if kind == "transparent":
        v["msg"] = {"kind": "transparent"}
        return v
    if name and chance(draw, 1, 8):
        v["msg"] = {"kind": "path"}
        return v
    segs = []
    for _ in range(num(draw, 0, 4)):
        k = num(draw, 0, 3)
        if k == 0 or not v["fields"]:
            segs.append({"lit": pick(draw, LITS)})
            continue
        j = num(draw, 0, len(v["fields"]) - 1)
        f = v["fields"][j]
        if f["role"] == "src" and f["wrap"].startswith("Option"):
            continue
        segs.append({"f": j, "spec": pick(draw, NUMSPEC) if f["role"] == "num" else pick(draw, ["", "", "?", ">6"]) if f["role"] == "str" else ""})
    v["msg"] = {"kind": "msg", "segs": segs}
    return v


def types(draw):
    out = []
    total = num(draw, 2, 4)
    for i in range(total):
        generic = i > 0 and chance(draw, 1, 4)
        froms = set()
        if chance(draw, 1, 2):
            t = {"kind": "enum", "variants": [variant(draw, n, i, generic, froms, total) for n in gen.names(draw, num(draw, 1, 4), VN)]}
        else:
            t = {"kind": "struct", "variants": [variant(draw, None, i, generic, froms, total)]}
        t["generic"] = generic
        if generic and not any(f["role"] == "src" and f["to"]["k"] == "param" for v in t["variants"] for f in v["fields"]):
            t["generic"] = False
        out.append(t)
        # A field cannot be of a generic type, whose parameter it would have to name.
    for i, t in enumerate(out):
        for v in t["variants"]:
            for f in v["fields"]:
                if f["role"] == "src" and f["to"]["k"] == "t":
                    while out[f["to"]["i"]]["generic"]:
                        f["to"] = {"k": "t", "i": f["to"]["i"] - 1} if f["to"]["i"] else {"k": "box"}
        seen = set()
        for v in t["variants"]:
            for f in v["fields"]:
                if f["role"] == "src":
                    if f["to"]["k"] in ("box", "any") and f["wrap"] not in ("plain", "Option"):
                        f["wrap"] = "plain"
                    key = f"{f['to']}{f['wrap'].replace('Option<Box>', 'Box').replace('Option', 'plain')}"
                    if "from" in f["how"]:
                        if key in seen:
                            f["how"] = "source" if f["how"] == "from" else "transparent"
                        seen.add(key)
    return out


def bare_type(f, param="S"):
    to = f["to"]
    return f"E{to['i']}" if to["k"] == "t" else BOX if to["k"] == "box" else ANY if to["k"] == "any" else param


def field_type(f):
    if f["role"] == "tok":
        return "Tok"
    if f["role"] == "num":
        return "i64"
    if f["role"] == "str":
        return "String"
    b = bare_type(f)
    return {"plain": b, "Box": f"Box<{b}>", "Arc": f"std::sync::Arc<{b}>", "Option": f"Option<{b}>", "Option<Box>": f"Option<Box<{b}>>"}[f["wrap"]]


def ref(v, j):
    n = v["fields"][j]["name"]
    return str(j) if n is None else gen.unraw(n)


def attr(i, v):
    m = v["msg"]
    if m["kind"] == "transparent":
        return "#[error(transparent)]"
    if m["kind"] == "path":
        return f"#[error(fmt = p_E{i}_{gen.unraw(v['name'])})]"
    s = "".join(x["lit"].replace("{", "{{").replace("}", "}}") if "lit" in x else "{" + ref(v, x["f"]) + (":" + x["spec"] if x["spec"] else "") + "}" for x in m["segs"])
    return f"#[error({gen.rust_str(s)})]"


def fields_text(v, vis):
    out = []
    for f in v["fields"]:
        a = {"source": "#[source] ", "from": "#[from] ", "transparent from": "#[from] "}.get(f.get("how"), "")
        out.append(a + vis + (f["name"] + ": " if f["name"] else "") + field_type(f))
    return {"unit": "", "named": " { " + ", ".join(out) + " }", "tuple": "(" + ", ".join(out) + ")"}[v["shape"]]


def type_text(i, t):
    g = "<S>" if t["generic"] else ""
    out = ["#[derive(Debug, thiserror::Error)]"]
    if t["kind"] == "struct":
        v = t["variants"][0]
        out.append(attr(i, v))
        out.append(f"pub struct E{i}{g}{fields_text(v, 'pub ')}" + ("" if v["shape"] == "named" else ";"))
    else:
        out.append(f"pub enum E{i}{g} {{")
        for v in t["variants"]:
            out.append(f"    {attr(i, v)} {v['name']}{fields_text(v, '')},")
        out.append("}")
    for v in t["variants"]:
        if v["msg"]["kind"] == "path":
            ps, args, fmt = "", "", "via"
            for j, f in enumerate(v["fields"]):
                ps += f"a{j}: &{field_type(f)}, "
                if f["role"] in ("tok", "num"):
                    fmt += " {}"
                    args += f", a{j}"
            pg = g if "S" in [bare_type(f) for f in v["fields"] if f["role"] == "src"] else ""
            out.append(f"fn p_E{i}_{gen.unraw(v['name'])}{pg}({ps}f: &mut kit::Fmt) -> kit::FmtResult {{ std::write!(f, \"{fmt}\"{args}) }}")
    # Which variant it is, and of which history.
    arms = ""
    for v in t["variants"]:
        p = vpath(i, t, v)
        tok = next((f"{f['name'] or j}" for j, f in enumerate(v["fields"]) if f["role"] == "tok"), None)
        arms += f"{p} {{ {tok}: k, .. }} => format!(\"E{i}::{v['name'] or ''}#{{}}\", k.0), " if tok else f'{p} {{ .. }} => String::from("E{i}::{v["name"] or ""}"), '
    out.append(f"fn ident_E{i}{g}(x: &E{i}{g}) -> String {{ match x {{ {arms} }} }}")
    return "\n".join(out)


def vpath(i, t, v):
    return f"E{i}" if t["kind"] == "struct" else f"E{i}::{v['name']}"


# ---------------------------------------------------------------------------
# The model.


def spec_num(n, spec):
    a = abs(n)
    if spec in ("x", "#x"):
        return ("0x" if "#" in spec else "") + format(n & (2**64 - 1), "x")
    if spec == "#010b":
        s = format(n & (2**64 - 1), "b")
        return "0b" + s.rjust(8, "0")
    if spec == "08":
        return ("-" if n < 0 else "") + str(a).rjust(7 if n < 0 else 8, "0")
    if spec == "+":
        return ("-" if n < 0 else "+") + str(a)
    s = str(n)
    return {"": s, ">6": s.rjust(6), "<6": s.ljust(6), "*>5": s.rjust(5, "*"), "^7": center(s, 7)}[spec]


def center(s, w):
    p = max(0, w - len(s))
    return " " * (p // 2) + s + " " * (p - p // 2)


class Model:
    def __init__(self, ts):
        self.ts = ts
        self.toks = 0
        self.keys = {}

    def variant(self, n):
        return self.ts[n["t"]]["variants"][n["v"]]

    def message(self, n):
        v = self.variant(n)
        if v["msg"]["kind"] == "transparent":
            return self.message(n["src"])
        if v["msg"]["kind"] == "path":
            return "via" + "".join(" " + (f"t{n['tok']}" if f["role"] == "tok" else str(n["num"])) for f in v["fields"] if f["role"] in ("tok", "num"))
        out = ""
        for s in v["msg"]["segs"]:
            if "lit" in s:
                out += s["lit"]
                continue
            r = v["fields"][s["f"]]["role"]
            if r == "tok":
                out += f"t{n['tok']}"
            elif r == "num":
                out += spec_num(n["num"], s["spec"])
            elif r == "str":
                out += {"": n["str"], "?": f'"{n["str"]}"', ">6": n["str"].rjust(6)}[s["spec"]]
            else:
                out += self.message(n["src"])
        return out

    def ident(self, n):
        v = self.variant(n)
        return f"E{n['t']}::{v['name'] or ''}" + (f"#{n['tok']}" if n["tok"] is not None else "")

    def below(self, n):
        """The errors that source() leads to, as a list."""
        if n["src"] is None:
            return []
        if self.variant(n)["msg"]["kind"] == "transparent":
            return self.below(n["src"])
        return [n["src"]] + self.below(n["src"])

    def chain(self, n):
        return [self.message(n)] + [self.message(x) for x in self.below(n)]

    def idents(self, n):
        return [self.ident(n)] + [self.ident(x) for x in self.below(n)]

    def tokens(self, n):
        return ([n["tok"]] if n["tok"] is not None else []) + (self.tokens(n["src"]) if n["src"] else [])

    def key(self, n):
        """The Rust type."""
        if self.ts[n["t"]]["generic"]:
            k = f"E{n['t']}<{n['param']}>"
        else:
            k = f"E{n['t']}"
        self.keys[k] = n["t"]
        return k


class Machine:
    """Draws a history, or replays a drawn one, keeping the model beside the Rust code."""

    def __init__(self, ts):
        self.m = Model(ts)
        self.ts = ts
        self.slots = []  # {"var", "kind", "node"}
        self.code = []
        self.nvar = 0
        self.kinds = []

    def new(self, kind, node, var=None):
        if var is None:
            var = f"s{self.nvar}"
            self.nvar += 1
        s = {"var": var, "kind": kind, "node": node}
        self.m.key(node)
        self.slots.append(s)
        return s

    def check(self, s, label):
        e = {"t": f"&{s['var']}", "box": f"&*{s['var']}", "any": f"&*{s['var']}"}[s["kind"]]
        lst = ", ".join(gen.rust_str(x) for x in self.m.chain(s["node"]))
        ids = ", ".join(gen.rust_str(x) for x in self.m.idents(s["node"]))
        self.code.append(f'    look(cx, "{label}", {e}, id_of, &[{lst}], &[{ids}]);')
        if s["kind"] == "any":
            self.code.append(f'    cx.eq("{label}: anyhow", by_anyhow(&{s["var"]}), messages({e}));')

    def lives(self, label):
        want = sorted(t for s in self.slots for t in self.m.tokens(s["node"]))
        self.code.append(f'    lives(cx, "{label}", &{want});')

    def typed(self, s):
        return self.m.key(s["node"])

    def fits(self, f, s):
        k = f["to"]["k"]
        if len(self.m.message(s["node"])) > 2000:
            return False
        if k == "param":
            return s["kind"] == "t" and self.typed(s).count("<") < 3
        if k == "t":
            return s["kind"] == "t" and s["node"]["t"] == f["to"]["i"] and not self.ts[f["to"]["i"]]["generic"]
        return s["kind"] == k

    def wrapped(self, f, var):
        return {"plain": var, "Box": f"Box::new({var})", "Arc": f"std::sync::Arc::new({var})", "Option": f"Some({var})", "Option<Box>": f"Some(Box::new({var}))"}[f["wrap"]]

    def options(self):
        """Everything that can be done now: a list of operations, each a list of plain values."""
        out = {}

        def add(kind, *x):
            out.setdefault(kind, []).append([kind, *x])

        for i, t in enumerate(self.ts):
            for j, v in enumerate(t["variants"]):
                if v["src"] is None:
                    if not t["generic"]:
                        add("make", i, j, None)
                    elif self.m.keys:
                        add("make", i, j, None)
                    continue
                f = v["fields"][v["src"]]
                if f["wrap"].startswith("Option") and f["to"]["k"] != "param" and (self.m.keys or not t["generic"]):
                    add("none", i, j, None)
                once = v["msg"]["kind"] != "msg" or sum(x.get("f") == v["src"] for x in v["msg"]["segs"]) <= 1
                for k, s in enumerate(self.slots):
                    if self.fits(f, s) and f["to"] == {"k": "t", "i": i} and once and len(self.m.message(s["node"])) < 200 and len(self.m.chain(s["node"])) < 120:
                        add("deepen", i, j, k)
                    if self.fits(f, s):
                        add("convert" if "from" in f["how"] else "wrap", i, j, k)
        for k, s in enumerate(self.slots):
            v = self.m.variant(s["node"])
            if s["kind"] == "t":
                add("box", k)
                add("any", k)
                if s["node"]["src"] is not None:
                    add("take", k)
                    f = v["fields"][v["src"]]
                    for l, o in enumerate(self.slots):
                        if l != k and self.fits(f, o) and f["wrap"] in ("plain", "Option", "Box") and (f["to"]["k"] != "param" or self.typed(o) == s["node"]["param"]):
                            add("replace", k, l)
                if s["node"]["num"] is not None:
                    add("mutate", k)
            else:
                add("downcast", k)
                add("miss", k)
            add("move", k)
            add("share", k)
            add("drop", k)
        return out

    def step(self, op, n):
        """Performs one operation on the model and adds its code."""
        kind = op[0]
        if n is not None:
            self.kinds.append(kind)
        label = f"step {n}"
        if kind == "deepen":
            _, i, j, k, how, tok, val, txt = op
            for d in range([2, 5, 9, 17, 33, 50][tok % 6]):
                self.step(["wrap", i, j, k, how, tok + d, val + d, txt], None)
                k = len(self.slots) - 1
            self.check(self.slots[-1], label)
        elif kind in ("make", "none", "convert", "wrap"):
            _, i, j, k, how, tok, val, txt = op
            t = self.ts[i]
            v = t["variants"][j]
            f = v["fields"][v["src"]] if v["src"] is not None else None
            src = self.slots[k] if k is not None else None
            node = {"t": i, "v": j, "tok": None, "num": None, "str": None, "src": src["node"] if src else None}
            inits = []
            for x, g in enumerate(v["fields"]):
                if g["role"] == "tok":
                    self.m.toks += 1
                    node["tok"] = self.m.toks
                    e = f"Tok::new({self.m.toks})"
                elif g["role"] == "num":
                    node["num"] = val
                    e = str(val)
                elif g["role"] == "str":
                    node["str"] = txt
                    e = f"String::from({gen.rust_str(txt)})"
                else:
                    e = "None" if src is None else self.wrapped(g, src["var"])
                inits.append(f"{g['name'] or x}: {e}")
            if t["generic"]:
                if f and f["to"]["k"] == "param" and src:
                    node["param"] = self.typed(src)
                else:
                    node["param"] = sorted(self.m.keys)[tok % len(self.m.keys)]
            ty = self.m.key(node)
            if src:
                self.slots.remove(src)
            s = self.new("t", node)
            if kind == "convert":
                x = src["var"]
                if f["wrap"] in ("Box", "Option<Box>"):
                    x = f"Box::new({x})"
                elif f["wrap"] == "Arc":
                    x = f"std::sync::Arc::new({x})"
                e = [f"<{ty}>::from({x})", f"(move || -> Result<(), {ty}> {{ Err({x})?; Ok(()) }})().unwrap_err()", f"Result::<(), _>::Err({x}).map_err(<{ty}>::from).unwrap_err()"][how % 3]
            else:
                e = f"{vpath(i, t, v)} {{ {', '.join(inits)} }}"
            self.code.append(f"    let mut {s['var']}: {ty} = {e};")
            if n is None:
                return
            self.check(s, label)
        elif kind in ("box", "any"):
            s = self.slots.pop(op[1])
            how = op[2]
            o = self.new(kind, s["node"])
            x = s["var"]
            ty = BOX if kind == "box" else ANY
            e = [f"{x}.into()", f"(move || -> Result<(), {ty}> {{ Err({x})?; Ok(()) }})().unwrap_err()", f"Box::new({x})" if kind == "box" else f"{ANY}::new({x})"][how % 3]
            self.code.append(f"    let mut {o['var']}: {ty} = {e};")
            self.check(o, label)
        elif kind == "downcast":
            s = self.slots.pop(op[1])
            ty = self.typed(s)
            o = self.new("t", s["node"])
            e = f"*{s['var']}.downcast::<{ty}>().unwrap()" if s["kind"] == "box" else f"{s['var']}.downcast::<{ty}>().unwrap()"
            self.code.append(f"    let mut {o['var']}: {ty} = {e};")
            self.check(o, label)
        elif kind == "miss":
            s = self.slots.pop(op[1])
            ty = self.typed(s)
            others = sorted(x for x in self.m.keys if x != ty) or ["std::fmt::Error"]
            o = self.new(s["kind"], s["node"])
            self.code.append(f"    let mut {o['var']} = {s['var']}.downcast::<{others[op[2] % len(others)]}>().unwrap_err();")
            self.check(o, label)
        elif kind == "take":
            s = self.slots.pop(op[1])
            n_ = s["node"]
            t = self.ts[n_["t"]]
            v = self.m.variant(n_)
            f = v["fields"][v["src"]]
            o = self.new({"t": "t", "param": "t"}.get(f["to"]["k"], f["to"]["k"]), n_["src"])
            x = {"plain": "q", "Box": "*q", "Arc": "std::sync::Arc::try_unwrap(q).unwrap()", "Option": "q.unwrap()", "Option<Box>": "*q.unwrap()"}[f["wrap"]]
            self.code.append(f"    let mut {o['var']} = {{ let w = {s['var']}; match w {{ {vpath(n_['t'], t, v)} {{ {f['name'] or v['src']}: q, .. }} => {x}, _ => unreachable!() }} }};")
            self.check(o, label)
        elif kind == "replace":
            s, o = self.slots[op[1]], self.slots[op[2]]
            n_ = s["node"]
            t = self.ts[n_["t"]]
            v = self.m.variant(n_)
            f = v["fields"][v["src"]]
            self.slots.remove(o)
            old = n_["src"]
            n_["src"] = o["node"]
            k = self.new(o["kind"], old)
            x = {"plain": "q", "Box": "*q", "Option": "q.unwrap()"}[f["wrap"]]
            self.code.append(f"    let mut {k['var']} = match &mut {s['var']} {{ {vpath(n_['t'], t, v)} {{ {f['name'] or v['src']}: q, .. }} => {{ let q = std::mem::replace(q, {self.wrapped(f, o['var'])}); {x} }} _ => unreachable!() }};")
            self.check(s, label)
            self.check(k, label + ", replaced")
        elif kind == "mutate":
            s = self.slots[op[1]]
            n_ = s["node"]
            v = self.m.variant(n_)
            j = next(j for j, f in enumerate(v["fields"]) if f["role"] == "num")
            n_["num"] = op[2]
            self.code.append(f"    match &mut {s['var']} {{ {vpath(n_['t'], self.ts[n_['t']], v)} {{ {v['fields'][j]['name'] or j}: q, .. }} => *q = {op[2]}, _ => unreachable!() }};")
            self.check(s, label)
        elif kind == "move":
            s = self.slots.pop(op[1])
            o = self.new(s["kind"], s["node"])
            x = s["var"]
            e = [f"pass({x})", f"std::thread::spawn(move || {x}).join().unwrap()", f"vec![{x}].pop().unwrap()", f"*Box::new({x})",
                 f"std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || {x})).unwrap()"][op[2] % 5]  # fmt: skip
            self.code.append(f"    let mut {o['var']} = {e};")
            self.check(o, label)
        elif kind == "share":
            s = self.slots[op[1]]
            e = {"t": f"&{s['var']}", "box": f"&*{s['var']}", "any": f"&*{s['var']}"}[s["kind"]]
            lst = ", ".join(gen.rust_str(x) for x in self.m.chain(s["node"]))
            self.code.append(f'    share(cx, "{label}", {e}, &[{lst}]);')
        elif kind == "drop":
            s = self.slots.pop(op[1])
            x = s["var"]
            e = [f"drop({x})", f"std::thread::spawn(move || drop({x})).join().unwrap()", f"let _ = (move || -> Result<(), _> {{ Err({x}) }})().is_err()"][op[2] % 3]
            self.code.append(f"    {e};")
        self.lives(label)


@st.composite
def cases(draw):
    ts = types(draw)
    mc = Machine(ts)
    ops = []
    for n in range(pick(draw, [3, 5, 8, 10, 12, 14, 16, 18, 20, 22, 24, 28])):
        opts = mc.options()
        weights = {"make": 2, "none": 1, "convert": 7, "wrap": 7, "box": 2, "any": 2, "take": 3, "replace": 3, "mutate": 2, "downcast": 3, "miss": 1, "move": 1, "drop": 1, "deepen": 2, "share": 1}
        if len(mc.slots) < 2:
            weights["make"] = 8
        kinds = [k for k in opts for _ in range(weights[k])]
        if not kinds:
            break
        k = pick(draw, kinds)
        op = list(pick(draw, opts[k]))
        if k in ("make", "none", "convert", "wrap", "deepen"):
            op += [num(draw, 0, 2), num(draw, 0, 5), pick(draw, [0, 1, -1, 7, 255, 123456, -40]), pick(draw, ["", "s", "text"])]
        elif k == "mutate":
            op.append(pick(draw, [0, -3, 16, 99999999]))
        elif k in ("box", "any", "miss", "move", "drop"):
            op.append(num(draw, 0, 5))
        mc.step(op, n)
        ops.append(op)
    return {"types": ts, "ops": ops}


def replay(c):
    import copy

    mc = Machine(copy.deepcopy(c["types"]))
    for n, op in enumerate(c["ops"]):
        mc.step(op, n)
    return mc


class C19(engine.Prop):
    id = "C19"
    title = "Errors stay consistent through any history of wrapping and conversion"
    rule = "the history wraps or converts an error and later inspects, unwraps, replaces or downcasts one"
    per_worker = {"quick": 250, "thorough": 1000}
    rounds = {"quick": 3, "thorough": 14}
    has_control = False

    def configs(self):
        return ["stable"] * 5 + ["synfull", "nightly", "older"]

    def crate_items(self, cfg):
        return ITEMS

    def strategy(self):
        return cases()

    def emit(self, c, mode, cfg):
        mc = replay(c)
        out = ["use crate::*;"]
        out += [type_text(i, t) for i, t in enumerate(c["types"])]
        out.append("fn id_of(e: &(dyn std::error::Error + 'static)) -> String {")
        for k, i in mc.m.keys.items():
            out.append(f"    if let Some(x) = e.downcast_ref::<{k}>() {{ return ident_E{i}(x); }}")
            out.append(f"    if let Some(x) = e.downcast_ref::<Box<{k}>>() {{ return ident_E{i}(x); }}")
            out.append(f"    if let Some(x) = e.downcast_ref::<std::sync::Arc<{k}>>() {{ return ident_E{i}(x); }}")
        out.append('    String::from("?")\n}')
        out.append("pub fn run(cx: &mut kit::Cx) {\n    reset();")
        out += mc.code
        if mc.slots:
            out.append(f"    drop(({', '.join(s['var'] for s in mc.slots)},));")
        out.append('    cx.eq("end: live", live(), (vec![], 0));\n}')
        return "\n".join(out)

    def nontrivial(self, c):
        ks = [o[0] for o in c["ops"]]
        return any(k in ("wrap", "convert", "deepen") for k in ks) and any(k in ("take", "replace", "downcast", "mutate", "move", "miss") for k in ks)

    def labels(self, c):
        out = [f"{min(20, len(c['ops']) // 5 * 5)} or more operations"]
        out += ["operation " + o[0] for o in c["ops"]]
        mc = replay(c)
        d = max([len(mc.m.chain(s["node"])) for s in mc.slots] or [0])
        out.append(f"final chain of {d}")
        for t in c["types"]:
            if t["generic"]:
                out.append("generic type")
            for v in t["variants"]:
                for f in v["fields"]:
                    if f["role"] == "src":
                        out.append(f"source {f['how']} {f['to']['k']} in {f['wrap']}")
        return sorted(set(out))


PROP = C19()
