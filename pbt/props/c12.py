import re

from hypothesis import strategies as st

from .. import build, engine, exprs, gen
from ..engine import Fail, HarnessError, Ok, Work, compile_src, span_lines
from ..gen import chance, num, pick

TOKEN = re.compile(
    r"""\s*(r\#*"[^"]*"\#* | "(?:[^"\\]|\\.)*" | '(?:[^'\\]|\\.)' | '[a-z]\w* | \d+\.\d+(?:e\d+)? | \d\w* | r\#\w+ | \w+ |
        \.\.=|\.\.\.|\.\.|::|->|=>|==|!=|<=|>=|&&|\|\||<<=|>>=|<<|>>|\+=|-=|\*= | [()\[\]{}] | .)""",
    re.X,
)


def lex(s):
    """A list of tokens; a group is [open, tokens, close]."""
    stack = [[]]
    for t in TOKEN.findall(s.strip()):
        if t in "([{":
            stack.append([t])
            stack[-1].append([])
            stack.append(stack[-1][1])
        elif t in ")]}":
            stack.pop()
            g = stack.pop()
            g.append(t)
            stack[-1].append(g)
        else:
            stack[-1].append(t)
    return stack[0]


def show(ts):
    out = []
    for t in ts:
        if isinstance(t, list):
            out.append(t[0] + " " + show(t[1]) + " " + t[2])
        else:
            out.append(t)
    return " ".join(out)


def every(ts):
    """All token lists in ts, nested ones included."""
    out = [ts]
    for t in ts:
        if isinstance(t, list):
            out += every(t[1])
    return out


# Constant expressions: no fields, so that write! takes them as they are.
EXPRS = [
    "1", "1 + 2", "-1", '"a"', "x = 5", "k = 1 < 2", "if true { 1 } else { 2 }", "match 3 { 0 => 1, 1 | 2 => 5, _ if true => 2, _ => 7 }",
    "(|a: i64, b: i64| a + b)(1, 2)", "vec![1, 2].len()", "<i64 as kit::Conv<u8, u16>>::C", "1 < 2", "1 == 2", '"x".len()',
    "[1, 2][0]", "(1, 2).1", "{ let a = 1; a }", "unsafe { 1 }", "loop { break 1 }", "'q: { break 'q 1 }", "kit::Two::<u8, u16>::N",
    "1 as u8", "!true", "&1", "&mut 1", "*&1", "1 << 2 >> 1", "1 & 2 | 3 ^ 4", "true && false || true", "matches!(1, 0..=5)",
    "(0..3).len()", "1.5e3", "'c'", "b'x'", 'r#"raw"#', "if let Some(a) = Some(1) { a } else { 0 }", "(move || -> i64 { return 4 })()",
    "kit::Limits { lo: 1, hi: 2, name: String::new() }.hi", "core::mem::size_of::<[u8; 4]>()", "Some(3).map(|q| q + 1).unwrap_or(0)",
    "stringify!(a, b = c)", "format!(\"{a}\", a = 1)", "self.0", "const { 3 }", "<[i64]>::len(&[1])", "u8::MAX", "i64::max(1, 2)",
    "while false {}", "for _ in 0..1 {}", "return Ok(())", "{ struct Q<A>(A); Q::<u8>(1).0 }", "[0u8; 3].len()", "kit::W9", "async = 1",
    "type = 2", "r#fn = 3", "{ 1 }", "()", "_", "a", "..", "0..", "|_| ()", "dyn = 4", "if 1 < 2 { 3 } else { 4 }", "1 < (2) as i64",
    "x == 1", "y <= 2", "fmt = 1", "transparent = 2", "break", "{ fn f<T: Into<u8>>(t: T) -> u8 { t.into() } f::<u8>(1) }",
    "(kit::id::<fn(i64) -> i64>)(|q| q)(1)", "<_>::default()", "(1,)", "x = if true { 1 } else { 2 }", "z = &&1", "w = |a: i64| a",
]  # fmt: skip
EXPRS += [exprs.text(t, 1) for t in exprs.VALUES + exprs.OTHERS]
EXPR_TOKENS = [lex(e) for e in EXPRS]
RANDOM = (
    "1 2.5 'c' \"s\" x _ self Self fn if else match let mut ref move return break loop unsafe const type dyn impl where as in for while "
    "struct enum 'a , , , = == => -> :: : ; ! ? & && | || + - * / % ^ < > << >> <= >= # @ $ ~ .. ..= r#x transparent fmt error crate "
    "super extern async await raw auto union box 0x1F 1_000u64 1e5 b\"b\" c\"c\" true u8 String kit"
).split()
FORMATS = ["m", "{}", "{} {}", "{x}", "{0}", "{:?}", "{} {x}", "{1} {0}", "{{}}", "{:1$}", "{:.*}", "{k:?}", "", "{", "}", "{x:}<5}", "{ 0 }", "{type}"]


def mutate(draw, ts):
    at = pick(draw, every(ts))
    k = num(draw, 0, 5)
    if k == 0 and at:
        at.pop(num(draw, 0, len(at) - 1))
    elif k == 1:
        at.insert(num(draw, 0, len(at)), pick(draw, RANDOM))
    elif k == 2 and at:
        i = num(draw, 0, len(at) - 1)
        at.insert(i, copy(at[i]))
    elif k == 3 and len(at) > 1:
        i = num(draw, 0, len(at) - 2)
        at[i], at[i + 1] = at[i + 1], at[i]
    elif k == 4:
        at.insert(num(draw, 0, len(at)), copy([pick(draw, "([{"), soup(draw, 1), ""]))
        for t in at:
            if isinstance(t, list):
                t[2] = {"(": ")", "[": "]", "{": "}"}[t[0]]
    elif at:
        i = num(draw, 0, len(at) - 1)
        at[i] = pick(draw, RANDOM)


def copy(t):
    return [copy(x) for x in t] if isinstance(t, list) else t


def soup(draw, depth=2):
    out = []
    for _ in range(num(draw, 0, 4)):
        if depth and chance(draw, 1, 4):
            o = pick(draw, "([{")
            out.append([o, soup(draw, depth - 1), {"(": ")", "[": "]", "{": "}"}[o]])
        else:
            out.append(pick(draw, RANDOM))
    return out


# Whatever may stand inside attributes, shorthand included.
DOT = [".0", ".x", ".1.0", ".99999999999999999999", ".0.1.2", ".r#fn", ".0x1", ".1e5", ". 0 . 1 .", ".0.0.0", ".self", "..0", ".4294967296", ".x.y.0",
       ".1.", ".1u8", ". ( 1 )", ".await", ".0.f()", ".fn", ".._", ". . . 0", ".1_0", ".1.5e3", ".0.1u8"]  # fmt: skip
WILD_FORMATS = FORMATS + [
    "{4294967295}", "{4294967296}", "{18446744073709551616}", "{99999999999999999999999999}", "{00000000000000000001}", "{r#}", "{r#x}",
    "{r#_}", "{_}", "{__field0}", "{self}", "{Self}", "{super}", "{crate}", "{fn}", "{é}", "{\u0301}", "{\u200b}", "{\U0001f980}", "{x\u0301}",
    "{x:\U0001f980<5}", "{x:}<", "{x:}", "{x:}}", "{x:{", "{x:{}}", "{:}>}", "{0:}^}}", "{ x }", "{x\n:?}", "{x:?\n}", "{0", "{0:", "{0:?", "{x y}", "{0 1}",
    "{\u00a0x}", "{x\u3000}", "{a\u2028b}", "{_0}", "{_x}", "{0x1}", "{1e5}", "{0.5}", "{-1}", "{+}", "{:$}", "{x:0$}", "{x:1$.2$}", "{\t}",
    "{x:}" * 40, "{0}" * 60, "{" * 50, "}" * 51, "{ℝ}", "{ª}", "{·x}", "{x·}", "{µ}", "{K}", "{ſ}", "{ß:p}", "{x::}<5}", "{x:?:}", "{x:#?}{x:#x?}",
    "{self:?}", "{self}", "{__formatter}", "{field}", "{\u0000}", "{'a}", "{\"}", "{\\}", "{r#self}", "{r#crate}", "{r##x}", "{r #x}", "{r#1}", "{r}",
]  # fmt: skip
TYPES = ["u8", "&'static str", "Option<u8>", "Option<>", "Option", "Option<u8, u8>", "Option<'static>", "::std::option::Option<u8>", "Backtrace", "Backtrace<>",
         "[u8; 3]", "[u8; { 1 + 2 }]", "(u8,)", "()", "!", "_", "fn(u8) -> u8", "for<'x> fn(&'x u8)", "*const u8", "dyn Send", "impl Send", "Self", "T",
         "<u8 as Iterator>::Item", "<u8>::Item", "Box<dyn for<'x> Fn(&'x u8) + Send>", "vec![]", "kit::mac!{}", "(u8)", "Fn(u8) -> u8", "Vec<{ 1 }>",
         "Vec<Item = u8>", "Vec<Item: Send>", "r#fn", "crate::X<u8>", "&'static mut [u8]", "A<B<C<D<E<u8>>>>>", "Option<Option<Box<dyn std::error::Error>>>",
         "<Option<u8>>::Z", "&u8", "&'a u8", "Inner<'a>", "PhantomData<fn() -> X>", "typeof(1)", "unsafe extern \"C\" fn(...)", "[u8]", "::u8", "Option::<u8>"]  # fmt: skip
FIELD_ATTRS = ["#[source]", "#[from]", "#[backtrace]", "#[error(\"{x}\")]", "#[error(transparent)]", "#[source(S)]", "#[from(S)]", "#[backtrace(S)]",
               "#[error(S)]", "#[error = \"x\"]", "#[error]", "#[from = 1]", "#[error[S]]", "#[source = 1]", "#[error{S}]"]  # fmt: skip
GENERICS = ["", "", "", "<X>", "<'a>", "<'a, X: 'a>", "<const N: usize>", "<X = u8>", "<X: ?Sized>", "<>", "<X,>", "<const N: usize = 3>",
            "<X: for<'x> Fn(&'x u8) -> u8>", "<#[allow(unused)] X>", "<r#fn>", "<T>"]  # fmt: skip
WHERES = ["", "", "", "where", "where X: Clone", "where X: Clone,", "where for<'x> &'x X: Clone", "where Self: Sized", "where Vec<X>: Clone, 'a: 'a"]


def diff_case(draw):
    args = []
    for _ in range(num(draw, 0, 3)):
        args.append(",")
        args += copy(pick(draw, EXPR_TOKENS))
    if chance(draw, 1, 3):
        args.append(",")
    for _ in range(pick(draw, [0, 0, 1, 1, 2])):
        mutate(draw, args)
    # The right number of placeholders more often than not.
    fmt = pick(draw, FORMATS)
    if chance(draw, 2, 3):
        n = 0
        top = "".join(t if isinstance(t, str) else "G" for t in args).split(",")
        names = [m.group(1) for a in top for m in [re.match(r"(?:r#)?([a-z]\w*)=(?!=)", a)] if m]
        n = len([a for a in top if a]) - len(names)
        fmt = " ".join(["{}"] * n + ["{%s:?}" % x for x in names])
        fmt = fmt.replace("{}", "{:?}")
    return {"kind": "diff", "fmt": fmt, "args": args}


def wild_soup(draw):
    out = soup(draw, 2)
    for _ in range(num(draw, 0, 2)):
        at = pick(draw, every(out))
        at.insert(num(draw, 0, len(at)), pick(draw, DOT))
    return out


def attr(draw):
    k = num(draw, 0, 9)
    lit = gen.styled_str(pick(draw, WILD_FORMATS), pick(draw, [["plain"], ["plain"], ["raw", 1], ["esc", 1]]))
    if k <= 3:
        return f"#[error({lit})]"
    if k <= 7:
        args = []
        for _ in range(num(draw, 0, 3)):
            args.append(",")
            args += copy(pick(draw, EXPR_TOKENS)) if chance(draw, 1, 2) else wild_soup(draw)
        for _ in range(num(draw, 0, 2)):
            at = pick(draw, every(args))
            at.insert(num(draw, 0, len(at)), pick(draw, DOT))
        return f"#[error({lit} {show(args)})]"
    if k == 8:
        return f"#[error({show(wild_soup(draw))})]"
    return pick(draw, ["#[error(transparent)]", f"#[error(fmt = {show(wild_soup(draw))})]", f"#[error(transparent {show(soup(draw))})]", "#[error]"])


def wild_case(draw):
    shape = pick(draw, ["named", "tuple", "unit"])
    g = pick(draw, GENERICS)
    w = pick(draw, WHERES)

    def fields():
        out = []
        for nm in gen.names(draw, num(draw, 0, 3), gen.NAMES):
            at = [pick(draw, FIELD_ATTRS).replace("S", show(wild_soup(draw)), 1) if chance(draw, 1, 3) else ""]
            out.append([nm, pick(draw, TYPES) if chance(draw, 1, 2) else "u8", at[0]])
        return out

    vs = [[pick(draw, ["A", "r#Fn", "B", "C"]), pick(draw, ["named", "tuple", "unit"]), fields(), attr(draw) if chance(draw, 3, 4) else ""]
          for _ in range(num(draw, 0, 2))]  # fmt: skip
    return {"kind": "wild", "container": pick(draw, ["struct", "struct", "enum", "union"]), "shape": shape, "fields": fields(), "generics": g,
            "where": w, "attr": attr(draw), "variants": vs}  # fmt: skip


class C12(engine.Prop):
    id = "C12"
    title = "Whatever an attribute or definition contains, the derive does not panic, and accepts arguments exactly if write! does"
    rule = "distinct cases with an argument, a placeholder, or an unusual type"
    per_worker = {"quick": 1200, "thorough": 2500}
    rounds = {"quick": 3, "thorough": 14}

    def configs(self):
        return ["stable", "stable", "stable", "synfull"]

    def strategy(self):
        @st.composite
        def case(draw):
            return diff_case(draw) if chance(draw, 1, 2) else wild_case(draw)

        return case()

    def tokens(self, c):
        return gen.rust_str(c["fmt"]) + " " + show(c["args"])

    def emit(self, c, mode, cfg):
        if c["kind"] == "diff":
            if mode == "derive":
                return f"#[derive(Debug, thiserror::Error)]\n#[error({self.tokens(c)})]\npub struct T;\n"
            return (
                "#[derive(Debug)] pub struct T;\nimpl std::fmt::Display for T { fn fmt(&self, __formatter: &mut std::fmt::Formatter) -> std::fmt::Result {\n"
                f"core::write!(__formatter, {self.tokens(c)})\n}} }}\nimpl std::error::Error for T {{}}\n"
            )

        def body(shape, fields, vis):
            if shape == "unit":
                return ""
            fs = ", ".join(a + " " + vis + (n + ": " if shape == "named" else "") + t for n, t, a in fields)
            return f" {{ {fs} }}" if shape == "named" else f"({fs})"

        # The twin of a definition that may be anything is the same one without the derive.
        out = f"#[derive(Debug{', thiserror::Error' if mode == 'derive' else ''})]\n" + c["attr"] + "\n"
        if c["container"] == "enum":
            vs = "".join(f"    {a}\n    {n}{body(s, f, '')},\n" for n, s, f, a in c["variants"])
            return out + f"pub enum T{c['generics']} {c['where']} {{\n{vs}}}\n"
        if c["container"] == "union":
            return out + f"pub union T{c['generics']} {c['where']} {body('named', c['fields'] or [['a', 'u8', '']], '')}\n"
        if c["shape"] == "named":
            return out + f"pub struct T{c['generics']} {c['where']} {body('named', c['fields'], 'pub ')}\n"
        return out + f"pub struct T{c['generics']}{body(c['shape'], c['fields'], 'pub ')} {c['where']};\n"

    def module(self, i, c, mode, cfg):
        return f"pub mod c{i} {{\nuse kit::{{raw, W9}};\n{self.emit(c, mode, cfg)}\n}}\n"

    def compile(self, built, wd, items, mode, cfg):
        """Errors by case."""
        src = "#![allow(warnings)]\nextern crate kit;\n"
        line = 3
        ranges = {}
        for i, c in items:
            t = self.module(i, c, mode, cfg)
            ranges[i] = (line, line + t.count("\n") - 1)
            line += t.count("\n")
            src += t
        src += "fn main() {}\n"
        rc, _, diags, err = compile_src(built, wd, src, emit="metadata", extra=["--cap-lints=allow"])
        errs = {i: [] for i, _ in items}
        lost = []
        for d in diags:
            if d["level"] != "error" or d["message"].startswith("aborting"):
                continue
            at = {i for p, lo, hi in span_lines(d, "case.rs") for i, (a, b) in ranges.items() if a <= lo <= b}
            for i in at:
                errs[i].append(d)
            if not at:
                lost.append(d)
        return errs, lost

    def verdicts(self, cases, cfg, mode="derive"):
        built = build.build(cfg)
        res = [Ok(1) for _ in cases]
        diff = [(i, c) for i, c in enumerate(cases) if c["kind"] == "diff"]
        wild = [(i, c) for i, c in enumerate(cases) if c["kind"] == "wild"]
        with Work() as wd:
            if mode == "hand":
                for part in (wild, diff):  # does the compiler survive it?
                    if part:
                        self.compile(built, wd, part, "hand", cfg)
                return res
            self.no_panic(built, wd, wild, cfg, res)
            got, _ = self.no_panic(built, wd, diff, cfg, res) or ({}, [])
            want, _ = self.compile(built, wd, diff, "hand", cfg) if diff else ({}, [])
            # What is rejected for its types alone may go unreported beside other errors:
            # decide anew, together with nothing but those that differ the same way.
            again = [(i, c) for i, c in diff if isinstance(res[i], Ok) and bool(got[i]) != bool(want[i])]
            for i, c in again[:40]:
                g, _ = self.compile(built, wd, [(i, c)], "derive", cfg)
                w, _ = self.compile(built, wd, [(i, c)], "hand", cfg)
                if bool(g[i]) == bool(w[i]):
                    continue
                if g[i]:
                    res[i] = Fail("rejected what write! accepts", g[i][0].get("rendered") or "")
                else:
                    res[i] = Fail("accepted what write! rejects", w[i][0].get("rendered") or "")
        return res

    def no_panic(self, built, wd, items, cfg, res):
        if not items:
            return None
        errs, lost = self.compile(built, wd, items, "derive", cfg)
        for i, c in items:
            for d in errs[i]:
                if "panicked" in d["message"]:
                    res[i] = Fail("the derive panicked", d.get("rendered") or "")
        if any("panicked" in d["message"] for d in lost):
            # Not attributed to a case: one by one.
            for i, c in items:
                e, l = self.compile(built, wd, [(i, c)], "derive", cfg)
                for d in e[i] + l:
                    if "panicked" in d["message"]:
                        res[i] = Fail("the derive panicked", d.get("rendered") or "")
        return errs, lost

    def nontrivial(self, c):
        if c["kind"] == "diff":
            return bool(c["args"])
        return True

    def labels(self, c):
        if c["kind"] == "diff":
            return ["argument tokens, " + ("balanced" if "{:?}" in c["fmt"] else "random") + " format"]
        return ["any definition: " + c["container"]]


PROP = C12()
