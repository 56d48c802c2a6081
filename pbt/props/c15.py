"""Definitions combining everything, placed in hostile scopes and produced by macros."""

import copy
import os
import re

from hypothesis import strategies as st

from .. import build, defs, engine, full, gen, sources
from ..engine import Fail, Ok
from ..gen import chance, num, pick

PRIMS = "u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize f32 f64 bool char str".split()
TYPE_NAMES = """Option Result Box String Vec Default From Into Display Debug Error Formatter Backtrace AsDisplay
AsDynError ThiserrorProvide Var Pointer Send Sync Sized Fn FnOnce Drop Copy Clone AsRef ToString ToOwned PartialEq LowerHex
core std alloc thiserror fmt error option result convert path Path PathBuf Request __private private source display aserror var
provide backtrace UnwindSafe Self_ Any TryFrom Display_ Arguments never""".split() + PRIMS
TRAITS_FOR_ARGS = {"Iterator", "ToString"}
#: A constant in scope cannot share its name with a binding of the expansion: see the known finding.
VALUE_NAMES = "Some None Ok Err drop String Vec Box Default Error Option Result Formatter Debug From Into".split()
MACROS = """write writeln format format_args panic unreachable unimplemented todo matches vec concat stringify assert assert_eq
debug_assert compile_error println print eprintln include_str env cfg line file dbg thiserror error display source""".split()
METHODS = "source fmt provide into from to_string borrow as_ref deref clone description cause type_id to_owned write_str write_fmt display as_var as_str eq".split()
STRUCT_NAMES = ["T", "Option", "Result", "Error", "Display", "Formatter", "String", "Box", "Backtrace", "core", "std", "thiserror", "r#type",
                "Some_", "fmt", "lower_case", "Debug", "From", "Größe", "u8", "str", "Default", "Request", "AsDynError"]  # fmt: skip
PARAM_NAMES = ["P", "Option", "Error", "Display", "String", "F", "E", "T", "Self_", "core", "std", "fmt", "Ü", "Formatter", "u8", "thiserror", "Some"]
CONST_NAMES = ["N", "LEN", "Größe", "n"]

# Names of the prelude in expressions and types, made absolute.
ABS = {
    "Some": "::core::option::Option::Some", "None": "::core::option::Option::None", "Option": "::core::option::Option",
    "String": "::std::string::String", "Vec": "::std::vec::Vec", "Box": "::std::boxed::Box", "Send": "::core::marker::Send",
    "Sync": "::core::marker::Sync", "vec!": "::std::vec!", "format!": "::std::format!", "matches!": "::core::matches!",
    "concat!": "::core::concat!", "panic!": "::core::panic!", **{p: "::core::primitive::" + p for p in PRIMS},
}  # fmt: skip
RE_ABS = re.compile(r"""(?xs) (?P<skip> r\#?"[^"]*"\#? | b?"(?:[^"\\]|\\.)*" | '(?:[^'\\]|\\.[^']*)'(?!\w) | (?<=[\w)\]>] )::\s* \w+ | \.\w+ )
    | (?<![\w:.$\#']) (?P<root> std|kit|core) :: | (?<![\w:.$\#']) (?P<word> %s ) (?!\w)""" % "|".join(re.escape(w) for w in sorted(ABS, key=len, reverse=True)))  # fmt: skip


def absolute(text):
    def sub(m):
        if m.group("skip") is not None:
            return m.group(0)
        if m.group("root"):
            return "::" + m.group("root") + "::"
        w = m.group("word")
        after = m.string[m.end():m.end() + 2]
        if w in PRIMS and after == "::":
            return "<" + ABS[w] + ">" if False else ABS[w]
        return ABS[w]

    return RE_ABS.sub(sub, text)


def rename(text, c):
    """The type parameters, and the container, under their other names."""
    for old, new in c["params_as"].items():
        text = re.sub(rf"(?<![\w:#'.\"])\b{old}\b(?![\w\"])", new, text)
    return text


def field_ty(f, c):
    return rename(absolute(f["ty"]), c)


class Pieces:
    """Text with holes that become arguments of a macro."""

    def __init__(self, sel):
        self.sel, self.i = sel, 0
        self.text, self.params, self.args = [], [], []

    def choice(self, kinds):
        if not self.sel:
            return ""
        k = kinds[self.sel[self.i % len(self.sel)] % len(kinds)]
        self.i += 1
        return k

    def put(self, s):
        self.text.append(s)

    def fill(self, kind, s):
        if not kind:
            self.text.append(s)
            return
        n = f"h{len(self.args)}"
        if kind == "tts":
            self.params.append(f"{{ $(${n}:tt)* }}")
            self.args.append("{ " + s + " }")
            self.text.append(f"$(${n})*")
        elif kind == "vis":
            self.params.append(f"[${n}:vis]")
            self.args.append("[" + s + "]")
            self.text.append(f"${n}")
        else:
            self.params.append(f"${n}:{kind}")
            self.args.append(s)
            self.text.append(f"${n}")

    def hole(self, kinds, s):
        self.fill(self.choice(kinds), s)


IDENT = ["", "ident", "tt", "ident"]
TYPE = ["", "ty", "tts", "ty"]
LITERAL = ["", "literal", "tt", "literal", "expr"]
META = ["", "meta", "tts", "meta", ""]
VIS = ["", "vis", "tts"]
PATH = ["", "path", "tts", "path"]
ARGS = ["", "tts", ""]


def self_debug(v):
    return v["msg"]["kind"] == "msg" and any("arg" in s and s["arg"][0] == "self" for s in v["msg"]["segs"])


def names_fields(v):
    """An argument has `.field` shorthand for a named field. Written in another macro context
    than the field, it does not find it: see the known findings."""
    m = v["msg"]
    return m["kind"] == "msg" and v["shape"] == "named" and any(not isinstance(t, str) for a in m["pos"] + m["named"] for t in a["e"])


def args_pieces(p, c, v):
    """The arguments one by one, with fragments for whole expressions, for parts of them and for names."""
    m = v["msg"]
    for a in m["pos"] + m["named"]:
        p.put(", ")
        if "n" in a:
            p.hole(IDENT, a["n"])
            p.put(" = ")
        text = rename(absolute(gen.expr_text(a["e"], lambda i: "." + (v["fields"][i]["name"] or str(i)))), c)
        if any(not isinstance(t, str) for t in a["e"]):
            # The shorthand is in the text of the macro, beside a fragment.
            k = p.choice(["", "expr", "literal", "tt", "block", ""])
            if k:
                p.put("(")
                p.fill(k, "{ 1u8 }" if k == "block" else "1u8")
                text = f", {text}).1"
            p.put(text)
        elif "self" in text:
            p.put(text)
        else:
            # What follows a fragment is not the shorthand.
            k = p.choice(["", "expr", "tts", "tuple", "method"])
            if k == "tuple":
                p.fill("expr", f"(1u8, {text})")
                p.put(".1")
            elif k == "method":
                p.fill("expr", f"::core::option::Option::Some({text})")
                p.put(".unwrap()")
            else:
                p.fill(k, text)
    p.put("," if m["comma"] else "")


def attr_pieces(p, c, v):
    m = v["msg"]
    # `self` is hygienic: `{self:?}` from a fragment means no `self` of the expansion.
    near = names_fields(v)
    k = p.choice(META if not self_debug(v) and not near else [""])
    if m["kind"] == "msg":
        text = gen.styled_str(gen.msg_format(m, v["fields"]), m["style"])
        full_attr = rename(absolute(gen.msg_attr(m, v["fields"])), c) if m["pos"] or m["named"] else text + ("," if m["comma"] else "")
        args = full_attr[len(text):] if full_attr.startswith(text) else None
        if k or args is None:
            p.put("#[")
            p.fill(k, f"error({full_attr})")
            p.put("]")
            return
        p.put("#[error(")
        p.hole(LITERAL if not self_debug(v) else [""], text)
        k = p.choice(ARGS) if args.strip(",") and not near else ""
        if k:
            p.fill(k, args)
        else:
            args_pieces(p, c, v)
        p.put(")]")
    elif m["kind"] == "path":
        p.put("#[")
        if k:
            p.fill(k, f"error(fmt = {'::' + m['path'].lstrip(':')})")
        else:
            p.put("error(fmt = ")
            p.hole(PATH, "::" + m["path"].lstrip(":"))
            p.put(")")
        p.put("]")
    else:
        p.put("#[")
        p.fill(k, "error(transparent)")
        p.put("]")


def fields_pieces(p, c, v, derive, struct, cfg):
    if v["shape"] == "unit":
        return
    p.put(" { " if v["shape"] == "named" else "(")
    for i, f in enumerate(v["fields"]):
        if derive:
            attrs = list(f["attrs"])
            if cfg.startswith("nightly") and f["cls"] == "src" and i == v["src"] and f.get("bt"):
                attrs.append("#[backtrace]")
            for a in attrs:
                p.put("#[")
                p.hole(META, a[2:-1])
                p.put("] ")
        if struct:
            p.hole(VIS, "pub ")
            p.put(" ")
        if f["name"]:
            p.hole(IDENT if not (derive and names_fields(v)) else [""], f["name"])
            p.put(": ")
        p.hole(TYPE, field_ty(f, c))
        p.put(", ")
    p.put("}" if v["shape"] == "named" else ")")


def decl_pieces(c, mode, cfg):
    derive = mode == "derive"
    p = Pieces(c["sel"])
    d = "::core::prelude::v1::derive" if c["scope"] == "no prelude" else "derive"
    p.put(f"#[{d}(::core::fmt::Debug" + (", ::thiserror::Error" if derive else "") + ")]\n")
    generics = rename(absolute(full.generics(c)), c)
    if c["kind"] == "struct":
        v = c["variants"][0]
        if derive:
            attr_pieces(p, c, v)
            p.put("\n")
        p.hole(VIS, "pub ")
        p.put(" struct ")
        p.hole(IDENT, c["name"])
        p.put(generics)
        fields_pieces(p, c, v, derive, True, cfg)
        p.put("" if v["shape"] == "named" else ";")
    else:
        p.hole(VIS, "pub ")
        p.put(" enum ")
        p.hole(IDENT, c["name"])
        p.put(generics + " {\n")
        for v in c["variants"]:
            if derive:
                attr_pieces(p, c, v)
                p.put("\n")
            p.hole(IDENT, v["name"])
            fields_pieces(p, c, v, derive, False, cfg)
            p.put(",\n")
        p.put("}")
    return p


def decl(c, mode, cfg):
    p = decl_pieces(c, mode, cfg)
    text = "".join(p.text)
    if not p.args and not c["wrap"]:
        return text
    out = []
    if p.args or c["wrap"]:
        out.append(f"macro_rules! mk__ {{ ({', '.join(p.params)}) => {{ {text} }}; }}")
    call = ", ".join(p.args)
    for i, w in enumerate(c["wrap"]):
        prev = "mk__" if i == 0 else f"mk__{i}"
        if w == "tts":
            out.append(f"macro_rules! mk__{i + 1} {{ ($($t:tt)*) => {{ {prev}! {{ $($t)* }} }}; }}")
        elif w == "item":
            out.append("macro_rules! pass__ { ($($i:item)*) => { $($i)* }; }")
            out.append(f"macro_rules! mk__{i + 1} {{ ($($t:tt)*) => {{ pass__! {{ {prev}! {{ $($t)* }} }} }}; }}")
        else:
            # The inner macro is defined by the outer one.
            out.append(f"macro_rules! mk__{i + 1} {{ ($($t:tt)*) => {{ macro_rules! inner__{i} {{ () => {{ {prev}! {{ $($t)* }} }}; }} inner__{i}! {{}} }}; }}")
    last = f"mk__{len(c['wrap'])}" if c["wrap"] else "mk__"
    out.append(f"{last}! {{ {call} }}")
    return "\n".join(out)


def own_names(c):
    return {gen.unraw(c["name"])} | {gen.unraw(x) for x in c["params_as"].values()}


def hostile_items(c):
    out = []
    for kind, nm in c["items"]:
        if kind == "type":
            form = [f"pub struct {nm} {{}}", f"pub trait {nm} {{}}", f"pub mod {nm} {{}}", f"pub type {nm} = ();", f"pub enum {nm} {{}}",
                    f"pub trait {nm}<X> {{ fn fmt(&self) {{}} fn source(&self) {{}} }}"][len(nm) % 6]  # fmt: skip
            out.append(form)
        elif kind == "used":
            out.append(f"pub struct {nm} {{}} impl {nm} {{ pub const ZQV: ::core::primitive::i64 = 71; }}")
        elif kind == "usedfn":
            out.append(f"pub fn {nm}(x: ::core::primitive::i64) -> ::core::primitive::i64 {{ x }}")
        elif kind == "const":
            out.append(f"pub const {nm}: () = ();")
        elif kind == "fn":
            out.append(f"pub fn {nm}() {{}}")
        elif kind == "macro":
            out.append(f"macro_rules! {nm} {{ ($($t:tt)*) => {{ ::core::compile_error! {{ \"the macro in scope was used\" }} }}; }}")
        elif kind == "evil":
            ms = " ".join(f"fn {m}(&self) -> ::core::primitive::u8 {{ 0 }}" for m in METHODS)
            out.append(f"pub trait Evil__ {{ {ms} }} impl<X: ?::core::marker::Sized> Evil__ for X {{}}")
        elif kind == "inherent":
            ms = " ".join(f"pub fn {m}(&self) -> ::core::primitive::u8 {{ 0 }}" for m in METHODS)
            out.append(f"#[allow(dead_code)] impl {c['name']} {{ {ms} pub const Error: () = (); pub fn new() {{}} }}")
        elif kind == "glob":
            out.append(f"pub mod glob__ {{ pub struct {nm} {{}} }} pub use self::glob__::*;")
    return "\n".join(out)


HOSTILE = [
    ("kit::Hostile", gen.INTS + "p", ["kit::Hostile(31)", "kit::Hostile(32)"], "allfmt_h"),
    ("Box<kit::Hostile>", "D?p", ["Box::new(kit::Hostile(33))"], "allfmt_h"),
]  # fmt: skip
POOL = sources.SOURCES + [
    {"ty": "kit::Hostile", "vals": ["kit::Hostile(34)"], "addr": ["kit::addr(s)"], "dyn": "s", "down": None, "cls": "hostile"},
] * 3  # fmt: skip


USED_TYPES = TYPE_NAMES + ["Arguments", "Write", "Fmt", "Private", "Source", "Transparent", "Value", "Deref", "Borrow"]
OWN_TRAITS = ["AsDisplay", "AsDynError", "ThiserrorProvide", "Var", "Error", "Display", "Debug", "Backtrace", "Request", "Formatter", "Option", "Some", "From"]
USED_FNS = """formatter f value val fmt out display request backtrace source transparent error var write from into provide debug
some ok err result field arg args self_ this format message msg as_display as_dyn_error string it x e err_ name line path none closure
wrapper fmt_ pad write_str write_fmt new default as_ref get inner to_string request_ref private export core std thiserror""".split()


def use_item(draw, c, taken):
    """An argument of a message uses an item that stands beside the definition, under any name
    that the expansion might want for itself."""
    vs = [v for v in c["variants"] if v["msg"]["kind"] == "msg"]
    if not vs:
        return
    v = pick(draw, vs)
    e = []
    for k in range(num(draw, 1, 4)):
        fn = chance(draw, 1, 2)
        free = [n for n in (USED_FNS if fn else pick(draw, [USED_TYPES, OWN_TRAITS])) if n not in taken]
        if fn:
            # A field is a variable for the arguments.
            free = [n for n in free if all(n != gen.unraw(f["name"] or "") for f in v["fields"]) and not any(k == "macro" for k, m in c["items"] if m == n)]
        if not free:
            continue
        nm = pick(draw, free)
        taken = taken | {nm}
        c["items"].append(["usedfn" if fn else "used", nm])
        # What the item is called is filled in later: it is not one of the prelude.
        e.append(f"QZF{k}(71)" if fn else f"QZT{k}::ZQV")
    if not e:
        return
    v["msg"]["named"].append({"n": "zq9", "e": [" + ".join(e)], "caps": "D?"})
    v["msg"]["segs"].append({"arg": ["named", "zq9"], "spec": {"ty": ""}})
    for i, f in enumerate(v["fields"]):
        hidden = f["name"] and gen.unraw(f["name"]) in {gen.unraw(a["n"]) for a in v["msg"]["named"]}
        if (f["name"] or not v["msg"]["pos"]) and not hidden and set(f["caps"]) & set("DP") and chance(draw, 3, 4):
            v["msg"]["segs"].append({"arg": ["field", i], "spec": {"ty": "" if set(f["caps"]) & set("DP") else "?"}})
            break


def fill_used(c, d):
    """The names of the used items, in order of their numbers."""
    names = [nm for k, nm in c["items"] if k.startswith("used")]
    for ph in sorted(set(re.findall(r"\bQZ[TF]\d*\b", d)), key=lambda p: p[3:]):
        d = re.sub(rf"\b{ph}\b", names.pop(0), d)
    return d


@st.composite
def cases(draw):
    scope = pick(draw, ["plain", "hostile", "hostile", "hostile", "no prelude", "fn"])
    c = full.container(
        draw, types=full.TYPES + HOSTILE * 3, pool=POOL, rich=scope in ("plain", "fn") and chance(draw, 1, 3),
        args=scope != "no prelude" and chance(draw, 1, 2),
    )  # fmt: skip
    c["scope"] = scope
    c["name"] = "T"
    c["params_as"] = {}
    c["items"] = []
    if chance(draw, 1, 2):
        c["name"] = pick(draw, STRUCT_NAMES if scope != "fn" else ["Wrapped", "Some_", "lower_case", "Größe", "r#type", "E"])
    used = {gen.unraw(c["name"])}
    if c["params"] and chance(draw, 1, 2):
        for old in [x for x in "PQN" if any(re.search(rf"\b{x}\b", p) for p in c["params"])]:
            new = pick(draw, [n for n in (CONST_NAMES if old == "N" else PARAM_NAMES) if n not in used])
            used.add(new)
            c["params_as"][old] = new
    if scope in ("hostile", "no prelude"):
        taken = set(used)
        for _ in range(num(draw, 1, 12)):
            kind = pick(draw, ["type"] * 5 + ["const", "fn", "macro", "macro", "evil", "inherent", "glob"])
            if kind in ("evil", "inherent"):
                nm = ""
                if kind == "inherent" and c["params"]:
                    continue
            else:
                nm = pick(draw, {"type": TYPE_NAMES, "glob": TYPE_NAMES, "const": VALUE_NAMES, "fn": gen.NAMES + VALUE_NAMES, "macro": MACROS}[kind])
            key = (kind if kind in ("evil", "inherent", "glob", "macro") else "item", "" if kind == "glob" else nm)
            if key in taken or nm in used or kind == "glob" and ("item", nm) in taken:
                continue
            taken.add(key)
            c["items"].append([kind, nm])
    if scope != "fn" and chance(draw, 1, 2):
        use_item(draw, c, {n for k, n in c["items"] if k != "macro"} | used)
    c["sel"] = [num(draw, 0, 19) for _ in range(num(draw, 1, 9))] if chance(draw, 1, 2) else []
    c["wrap"] = [pick(draw, ["tts", "item", "nested"]) for _ in range(num(draw, 0, 2))] if chance(draw, 1, 4) else []
    for v in c["variants"]:
        for f in v["fields"]:
            if f["cls"] == "src":
                f["bt"] = num(draw, 0, 1)
        add_backtrace(draw, v)
    return c


TRACES = [
    ("std::backtrace::Backtrace", ["std::backtrace::Backtrace::disabled()"] * 2, False),
    ("Option<std::backtrace::Backtrace>", ["Some(std::backtrace::Backtrace::disabled())", "None"], True),
    ("std::option::Option<std::backtrace::Backtrace>", ["None", "Some(std::backtrace::Backtrace::disabled())"], True),
]


def add_backtrace(draw, v):
    """A backtrace of its own, where the compiler has the API."""
    if not v["fields"] or v["msg"]["kind"] != "msg" or any(sources.is_from(f) for f in v["fields"]) or not chance(draw, 1, 4):
        return
    names = {gen.unraw(f["name"] or "") for f in v["fields"]} | {gen.unraw(a["n"]) for a in v["msg"]["named"]}
    free = [n for n in ["backtrace", "bt", "r#trait", "request", "trace", "at", "zq8"] if gen.unraw(n) not in names]
    ty, vals, marked = pick(draw, TRACES)
    marked = marked or chance(draw, 1, 2)
    for f in v["fields"]:
        f["bt"] = 0
    v["fields"].append({"ty": ty, "vals": vals, "caps": "", "cls": "bt", "kind": "bt", "name": pick(draw, free) if v["shape"] == "named" else None,
                        "attrs": ["#[backtrace]"] if marked else []})  # fmt: skip


def without_backtraces(c):
    """As it is for a compiler that lacks the API."""
    if not any(f["cls"] == "bt" for v in c["variants"] for f in v["fields"]):
        return c
    c = copy.deepcopy(c)
    for v in c["variants"]:
        for f in v["fields"]:
            if f["cls"] == "bt":
                opt = "Option" in f["ty"]
                f.update(ty="Option<u8>" if opt else "u8", vals=["Some(1)", "None"] if opt else ["1", "2"], attrs=[])
    return c


#: Fixed programs that the tree gets wrong, by the key of their known finding.
FINDINGS = {
    "inherent-as_display": """#[derive(Debug)] pub struct Name(pub &'static str);
impl Name { pub fn as_display(&self) -> std::string::String { format!("<{}>", self.0) } }
impl std::fmt::Display for Name { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str(self.0) } }
#[derive(Debug, thiserror::Error)] #[error("{0}")] pub struct T(pub Name);
fn main() { assert_eq!(T(Name("x")).to_string(), "x"); }
""",
    "inherent-as_dyn_error": """#[derive(Debug, Clone)] pub struct E;
impl E { pub fn as_dyn_error(&self) -> &(dyn std::error::Error + 'static) { &std::fmt::Error } }
impl std::fmt::Display for E { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str("e") } }
impl std::error::Error for E {}
#[derive(Debug, thiserror::Error)] #[error("t")] pub struct T(#[source] pub E);
fn main() { assert_eq!(std::error::Error::source(&T(E)).unwrap().to_string(), "e"); }
""",
    "blanket-as_display": """pub trait Show { fn as_display(&self) -> std::string::String; }
impl<X: std::fmt::Display> Show for X { fn as_display(&self) -> std::string::String { format!("<{self}>") } }
#[derive(Debug, thiserror::Error)] #[error("{0}")] pub struct T(pub u8);
fn main() { assert_eq!(T(1).to_string(), "1"); }
""",
    "const-named-as-field": """#![allow(non_upper_case_globals)] #[allow(dead_code)] const code: u8 = 1;
#[derive(Debug, thiserror::Error)] #[error("{code}")] pub struct T { pub code: u8 }
fn main() { assert_eq!(T { code: 2 }.to_string(), "2"); }
""",
    "unit-struct-named-source": """#![allow(non_camel_case_types, dead_code)] struct source;
#[derive(Debug, thiserror::Error)] pub enum T { #[error("a")] A(#[from] std::fmt::Error) }
fn main() { assert!(std::error::Error::source(&T::from(std::fmt::Error)).is_some()); }
""",
    "path-named-as-field": """fn code(c: &u8, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "code {c}") }
#[derive(Debug, thiserror::Error)] pub enum T { #[error(fmt = code)] A { code: u8 } }
fn main() { assert_eq!(T::A { code: 2 }.to_string(), "code 2"); }
""",
    "shorthand-from-another-macro": """macro_rules! mk { ($m:meta) => { #[derive(Debug, thiserror::Error)] #[$m] pub struct T { pub code: u8 } } }
mk! { error("{}", .code) }
fn main() { assert_eq!(T { code: 2 }.to_string(), "2"); }
""",
}


class C15(engine.Prop):
    id = "C15"
    title = "The expansion is hygienic"
    rule = "the definition has a message with a placeholder, source or conversion, and stands in a hostile scope or comes from a macro"
    per_worker = {"quick": 420, "thorough": 1000}
    rounds = {"quick": 3, "thorough": 14}

    def configs(self):
        return ["stable", "stable", "stable", "stable", "synfull", "synfull", "nightly", "nightly"]

    def crate_attrs(self, cfg):
        return "#![feature(error_generic_member_access)]\n" if cfg.startswith("nightly") else ""

    def strategy(self):
        return cases()

    def emit(self, c, mode, cfg):
        nightly = cfg.startswith("nightly")
        c = c if nightly else without_backtraces(c)
        d = fill_used(c, decl(c, mode, cfg))
        oracle = full.oracle(c, mode) + "\n" + full.run_fn(c, faults=False)
        oracle = re.sub(r"QZT\d*::ZQV|QZF\d*\(71\)", "71i64", oracle)
        if nightly and mode == "derive":
            for i, (_, e) in enumerate(defs.values(c)):
                if "Backtrace::disabled()" in e:
                    ask = f'cx.eq("backtrace {i}", std::error::request_ref::<std::backtrace::Backtrace>(&v).is_some(), true);'
                    oracle = oracle.replace(f'      cx.eq("chain {i}"', f'      {ask}\n      cx.eq("chain {i}"', 1)
        if c["scope"] == "fn":
            run = oracle.replace("pub fn run(cx", "fn inner(cx", 1)
            alias = "" if c["name"] == "T" else f"use {c['name']} as T;"
            ps = full.generics(c)
            if alias:
                # An item of a block has no path to be imported by.
                names = ", ".join(re.sub(r"const (\w+).*", r"\1", x).split(" ")[0] for x in c["params"])
                alias = f"type T{rename2(ps)} = {c['name']}" + (f"<{names}>" if names else "") + ";"
            return f"use ::kit::{{raw, MSG, W9}};\npub fn run(cx: &mut kit::Cx) {{\n{d}\n{alias}\n{run}\ninner(cx) }}"
        np = "#[no_implicit_prelude]\n" if c["scope"] == "no prelude" else ""
        use = "" if {"kit"} & own_names(c) else "use ::kit::{raw, MSG, W9};"
        return "\n".join([
            f"{np}pub mod d__ {{ #![allow(warnings)]\n{use}\n{hostile_items(c)}\n{d}\n}}",
            "use ::kit::{raw, MSG, W9};", f"use self::d__::{c['name']} as T;", oracle,
        ])  # fmt: skip

    def probes(self, seed, tier):
        built = build.build("stable")
        for key, src in FINDINGS.items():
            with engine.Work() as wd:
                rc, exe, diags, err = engine.compile_src(built, wd, src)
                v = Ok()
                if rc != 0:
                    v = Fail("does not compile", "".join(d.get("rendered") or "" for d in diags if d["level"] == "error"))
                else:
                    rc, o, e = engine.run_cmd([exe], 60)
                    if rc != 0:
                        v = Fail("wrong behaviour", e)
            yield key, v, {"known": key, "config": "stable", "program": src}

    def nontrivial(self, c):
        return full.nontrivial(c) and bool(c["items"] or c["sel"] or c["scope"] in ("no prelude", "fn"))

    def labels(self, c):
        out = full.labels(c) + ["scope " + c["scope"]] + ["item " + k for k in {k for k, _ in c["items"]}]
        if c["sel"]:
            out.append("made by a macro")
            kinds = {a.split(":")[1].rstrip("]") if ":" in a else "" for a in decl_pieces(c, "derive", "stable").params}
            out += ["fragment " + k for k in kinds]
        out += ["wrapped " + w for w in set(c["wrap"])]
        if c["params_as"]:
            out.append("parameters named as items")
        return out


def rename2(generics):
    return re.sub(r"const (\w+)", r"const \1", generics)


PROP = C15()
