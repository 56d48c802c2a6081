"""Strategies for error type definitions, messages, and argument expressions, and their
translation to Rust: once as thiserror input, once as the handwritten oracle.

A case is plain JSON. Choices come only from Hypothesis' `draw`.
"""

from hypothesis import strategies as st

from . import exprs

# ---------------------------------------------------------------------------
# Small helpers over draw.


def pick(draw, xs):
    return draw(st.sampled_from(xs))


def num(draw, lo, hi):
    return draw(st.integers(lo, hi))


def chance(draw, a, b):
    """True with probability about a/b; shrinks to False."""
    return num(draw, 0, b - 1) >= b - a


# ---------------------------------------------------------------------------
# Rust literals.


def rust_str(s):
    """A plain string literal for harness code."""
    out = []
    for ch in s:
        o = ord(ch)
        if ch in '"\\':
            out.append("\\" + ch)
        elif ch == "\n":
            out.append("\\n")
        elif 32 <= o < 127:
            out.append(ch)
        else:
            out.append("\\u{%x}" % o)
    return '"' + "".join(out) + '"'


def styled_str(s, style):
    """The same text written in one of Rust's several ways.

    style: ["plain"] | ["esc", k] escape every k-th char | ["raw", hashes] | ["cont", k] line
    continuations before every k-th char that is not whitespace."""
    kind = style[0]
    if kind == "raw":
        ok = "\r" not in s and all(
            ch in "\n\t" or (32 <= ord(ch) < 127) or (ch.isalnum() and ch.isprintable()) for ch in s
        )
        hashes = "#" * style[1]
        while '"' + hashes in s + " ":
            hashes += "#"
        if ok:
            return f'r{hashes}"{s}"{hashes}'
        kind = "plain"
    out = []
    for i, ch in enumerate(s):
        o = ord(ch)
        if kind == "cont" and i and i % style[1] == 0 and not ch.isspace():
            out.append("\\\n        ")
        if kind == "esc" and i % style[1] == 0:
            if o < 128 and (i // style[1]) % 2 == 0:
                out.append("\\x%02x" % o)
            else:
                out.append("\\u{%X}" % o)
        elif ch in '"\\':
            out.append("\\" + ch)
        elif ch == "\n":
            out.append("\\n")
        elif ch == "\t":
            out.append("\\t")
        elif ch == "\0":
            out.append("\\0")
        elif 32 <= o < 127 or (kind != "esc" and ch.isalnum() and ch.isprintable()):
            out.append(ch)
        else:
            out.append("\\u{%x}" % o)
    return '"' + "".join(out) + '"'


def string_style(draw):
    k = num(draw, 0, 5)
    if k <= 2:
        return ["plain"]
    if k == 3:
        return ["esc", num(draw, 1, 4)]
    if k == 4:
        return ["raw", num(draw, 0, 2)]
    return ["cont", num(draw, 2, 7)]


LIT_PIECES = [
    "msg", "a", " ", "error: ", "x=", "{", "}", "{}", "{0}", "{x}", "{{", "}}", "%s", "\"", "'", "\\",
    "\n", "\t", "r#", "\\x7b", "é", "日本", "\U0001f980", "0", ",", "#", "\0", "\u2028", "=", ";",
    "__field0", "<", ">", "?", ":", "::", "$",
]  # fmt: skip


def literal(draw, lo=0, hi=4):
    return "".join(pick(draw, LIT_PIECES) for _ in range(num(draw, lo, hi)))


# ---------------------------------------------------------------------------
# Field types. caps: D display, ? debug, x X o b e E, p pointer, P path-like display.

INTS = "D?xXobeE"
TYPES = [
    ("i32", INTS, ["0", "-17", "i32::MAX", "255"], "int"),
    ("u8", INTS, ["0", "200", "7"], "int"),
    ("i64", INTS, ["3", "-5", "12", "1"], "i64"),
    ("u64", INTS, ["u64::MAX", "1000000"], "int"),
    ("i128", INTS, ["i128::MIN", "5"], "int"),
    ("usize", INTS, ["4", "0", "11"], "usize"),
    ("f64", "D?eE", ["1.5", "-0.0", "f64::NAN", "1e300", "123.456"], "float"),
    ("f32", "D?eE", ["0.1", "f32::INFINITY"], "float"),
    ("bool", "D?", ["true", "false"], "bool"),
    ("char", "D?", ["'c'", "'{'", "'\\u{1f980}'", "'\\''"], "char"),
    ("String", "D?", ['String::from("str")', "String::new()", 'String::from("{x} {{}}")'], "string"),
    ("&'static str", "D?p", ['"sstr"', '""', '"{}"', '"lo\\nng"'], "str"),
    ("Box<i32>", "D?p", ["Box::new(5)"], "box"),
    ("std::rc::Rc<str>", "D?p", ['std::rc::Rc::from("rc")'], "box"),
    ("std::sync::Arc<String>", "D?p", ['std::sync::Arc::new(String::from("arc"))'], "box"),
    ("&'static i32", INTS + "p", ["&7", "&-1"], "ref"),
    ("Vec<i64>", "?", ["vec![]", "vec![1, 2]", "vec![7, 8, 9]"], "vec"),
    ("Option<i64>", "?", ["None", "Some(4)"], "opt"),
    ("(i64, bool)", "?", ["(3, true)"], "tup"),
    ("[u8; 3]", "?", ["[1, 2, 255]"], "arr"),
    ("()", "?", ["()"], "unit"),
    ("kit::AllFmt", INTS + "p", ["kit::AllFmt(1)", "kit::AllFmt(2)", "kit::AllFmt(3)"], "allfmt"),
    ("kit::Pair", "?", ["kit::Pair(6, kit::AllFmt(61))"], "pair"),
    ("kit::Nest", "?", ["kit::Nest(kit::Pair(8, kit::AllFmt(81)), 9)"], "nest"),
    ("kit::Limits", "?", ['kit::Limits { lo: 2, hi: 10, name: String::from("lim") }'], "limits"),
    ("kit::Tracer", "D?", ["kit::Tracer(1)", "kit::Tracer(2)"], "tracer"),
    ("kit::Touchy", "?", ["kit::Touchy(1)"], "touchy"),
    ("std::path::PathBuf", "P?", ['std::path::PathBuf::from("/a/b c")', "kit::bad_path()"], "path"),
    ("Box<std::path::Path>", "P?", ["kit::bad_path().into_boxed_path()"], "path"),
    ("&'static std::path::Path", "P?", ['std::path::Path::new("rel/path")'], "path"),
    ("std::sync::Arc<std::path::Path>", "P?", ['std::sync::Arc::from(std::path::Path::new("/arc"))'], "path"),
    ("std::borrow::Cow<'static, std::path::Path>", "P?",
     ['std::borrow::Cow::Borrowed(std::path::Path::new("/cow"))'], "path"),
    ("std::borrow::Cow<'static, str>", "D?", ['std::borrow::Cow::Borrowed("cow")'], "cow"),
    ("std::num::NonZeroU8", "D?xXob", ["std::num::NonZeroU8::new(9).unwrap()"], "int"),
    ("std::net::Ipv4Addr", "D?", ["std::net::Ipv4Addr::new(127, 0, 0, 1)"], "ip"),
    ("*const u8", "?p", ["std::ptr::null()", "8 as *const u8"], "ptr"),
    ("fn(i64) -> i64", "?p", ["kit::id::<i64>"], "fnptr"),
    ("Box<dyn kit::Show>", "D?", ["Box::new(kit::AllFmt(4))"], "dyn"),
    ("kit::FailFmt", "D?", ['kit::FailFmt("par")', 'kit::FailFmt("")'], "fail"),
    ("std::time::Duration", "?", ["std::time::Duration::from_millis(1500)"], "dur"),
    ("std::cell::Cell<i32>", "?", ["std::cell::Cell::new(3)"], "cell"),
    ("kit::DebugDisplay", "D?", ["kit::DebugDisplay(5)"], "dd"),
    ("kit::Leaf", "D?", ["kit::Leaf(1)", "kit::Leaf(2)"], "err"),
    ("kit::Node", "D?", ["kit::Node(3, kit::Leaf(4))"], "err"),
    ("std::num::ParseIntError", "D?", ['"x".parse::<u8>().unwrap_err()', '"".parse::<u8>().unwrap_err()'], "err"),
    ("kit::Wide", "?", ["kit::wide()"], "wide"),
]  # fmt: skip

BY_CLASS = {}
for _t in TYPES:
    BY_CLASS.setdefault(_t[3], []).append(_t)

CAP_TY = {
    "D": [""], "P": [""], "?": ["?", "?", "#?", "x?", "X?"], "x": ["x"], "X": ["X"], "o": ["o"],
    "b": ["b"], "e": ["e"], "E": ["E"], "p": ["p"],
}  # fmt: skip

#: Locals of generated expressions (q1, ...), references (r0, a0) and consts are not in here.
NAMES = [
    "a", "b", "x", "y", "msg", "kind", "code", "data", "r#type", "r#fn", "r#match", "r#struct",
    "formatter", "f", "_x", "Upper", "fmt", "core", "std", "err", "request", "transparent", "ok",
    "some", "write", "display", "error", "result", "backtrace_", "field", "pointer", "x1", "field0",
    "display_x", "_0", "_1", "r#async", "r#loop", "value", "Out", "this", "r#dyn", "thiserror",
    "Self_", "r#union", "größe", "gr", "имя", "é", "é1", "source_", "args", "s", "self_", "r#try", "x_y",
    "rest", "r#source", "q", "the_configuration_file_that_could_not_be_read", "n" * 70, "a1b2c3d4e5", "r#abstract", "ＦＵＬＬ", "ﬁeld",
    "camelCase", "SHOUT", "__x", "e", "E", "p", "o", "b1", "d1splay", "r#yield",
]  # fmt: skip


def unraw(n):
    return n[2:] if n.startswith("r#") else n


def names(draw, n, pool=NAMES):
    out = []
    seen = set()
    i = 0
    while len(out) < n:
        c = pick(draw, pool)
        if unraw(c) in seen:
            i += 1
            if i > 20:
                c = f"n{len(out)}"
            else:
                continue
        seen.add(unraw(c))
        out.append(c)
    return out


def many(draw, lo, hi, rare=30):
    """A number from lo to hi, and rarely one well beyond."""
    return num(draw, 17, 21) if chance(draw, 1, rare) else num(draw, lo, hi)


def field(draw, types=TYPES, values=2):
    t = pick(draw, types)
    return {
        "ty": t[0], "caps": t[1], "cls": t[3],
        "vals": [pick(draw, t[2]) for _ in range(values)], "attrs": [], "name": None,
    }  # fmt: skip


def shape_fields(draw, types=TYPES, max_fields=5, shapes=("named", "tuple", "unit")):
    shape = pick(draw, [s for s in shapes if s != "unit"] * 4 + [s for s in shapes if s == "unit"])
    if shape == "unit":
        return shape, []
    n = pick(draw, [0] + list(range(1, max_fields + 1)) * 3)
    if shape == "tuple" and chance(draw, 1, 12):
        n = num(draw, 10, 12)
    elif max_fields > 3 and chance(draw, 1, 30):
        n = num(draw, 17, 36)
    fs = [field(draw, types) for _ in range(n)]
    if shape == "named":
        for f, nm in zip(fs, names(draw, n)):
            f["name"] = nm
    else:
        for f in fs:
            f["name"] = None
    return shape, fs


# ---------------------------------------------------------------------------
# Expressions. A token list: strings, and {"f": i} for a reference to field i. Types:
# int (i64), bool, str (Display text), usize, any (something with D and ?), dbg (only ?).


def F(i):
    return {"f": i}


class Exprs:
    def __init__(self, draw, fields, rich):
        self.draw, self.fields, self.rich = draw, fields, rich
        self.ev = 0

    def of(self, *cls):
        return [i for i, f in enumerate(self.fields) if f["cls"] in cls]

    def lit(self):
        return [str(num(self.draw, 0, 40))]

    def int(self, d=2):
        draw = self.draw
        opts = []
        for i in self.of("i64"):
            opts += [["*", F(i)], ["kit::deref_i64(", F(i), ")"], ["(*", F(i), ")"], [F(i), ".wrapping_abs()"],
                     ["kit::add2(", F(i), ", ", F(i), ")"]]
        for i in self.of("pair"):
            opts += [[F(i), ".0"]]
        for i in self.of("nest"):
            opts += [[F(i), ".0.0"], [F(i), ".1"], ["-", F(i), ".0.0"]]
        for i in self.of("limits"):
            opts += [[F(i), ".lo"], [F(i), ".span()"], [F(i), ".hi"]]
        for i in self.of("tup"):
            opts += [[F(i), ".0"]]
        for i in self.of("opt"):
            opts += [[F(i), ".unwrap_or(7)"],
                     ["match ", F(i), " { Some(q1) => *q1, None => 0 }"],
                     ["if let Some(q1) = ", F(i), " { *q1 } else { -1 }"],
                     ["match ", F(i), " { Some(q1) if *q1 > 3 => q1 + 1, _ => 2 }"],
                     ["{ let Some(q1) = ", F(i), " else { panic!() }; *q1 }"] if False else ["loop { break 4 }"]]
        for i in self.of("vec"):
            opts += [[F(i), ".iter().map(|q1| *q1 as i64).sum::<i64>()"], [F(i), ".len() as i64"],
                     [F(i), ".iter().fold(0i64, |q1, q2| q1 + q2)"],
                     ["{ let mut q1 = 0; for q2 in ", F(i), ".iter() { q1 += q2; }; q1 }"],
                     ["*", F(i), ".first().unwrap_or(&5)"]]
        for i in self.of("string", "str"):
            opts += [[F(i), ".len() as i64"], ["kit::slen(", F(i), ") as i64"]]
        if not opts or chance(draw, 1, 8):
            opts = [self.lit()]
        if d <= 0 or not self.rich:
            return pick(draw, opts)
        k = num(draw, 0, 27)
        s = lambda: self.int(d - 1)  # noqa: E731
        p = lambda: ["("] + self.int(d - 1) + [")"]  # noqa: E731
        if k <= 6:
            return pick(draw, opts)
        if k == 7:
            return p() + [pick(draw, [" + ", " - ", " * ", " ^ ", " & ", " | "])] + p()
        if k == 8:
            return ["if "] + self.bool(d - 1) + [" { "] + s() + [" } else { "] + s() + [" }"]
        if k == 9:
            return ["match "] + p() + [" { 0 => "] + s() + [", q1 if q1 > 2 => "] + s() + [", _ => "] + s() + [" }"]
        if k == 10:
            return ["{ let q1: i64 = "] + s() + ["; let q2 = "] + s() + ["; q1.wrapping_add(q2) }"]
        if k == 11:
            return ["kit::id("] + s() + [")"]
        if k == 12:
            return ["kit::id::<i64>("] + s() + [")"]
        if k == 13:
            return ["(|q1: i64, q2: i64| q1.wrapping_sub(q2))("] + s() + [", "] + s() + [")"]
        if k == 14:
            return ["["] + s() + [", "] + s() + ["][1]"]
        if k == 15:
            return ["("] + s() + [", "] + s() + [").0"]
        if k == 16:
            return ["<i64 as kit::Conv<u8, u16>>::C"]
        if k == 17:
            return ["kit::Two::<u8, kit::Two<u8, u16>>::N"]
        if k == 18:
            return ["kit::Conv::<u8, u16>::conv(&"] + p() + [", 1u8, 2u16)"]
        if k == 19:
            return ["core::mem::size_of::<kit::Two<u8, u16>>() as i64"]
        if k == 20:
            return ["loop { break ("] + s() + [") }"]
        if k == 21:
            return ["'q: { if "] + self.bool(d - 1) + [" { break 'q "] + self.lit() + ["; }; "] + s() + [" }"]
        if k == 22:
            return ["unsafe { "] + s() + [" }"]
        if k == 23:
            return ["vec!["] + s() + [", "] + s() + ["].len() as i64"]
        if k == 24:
            return ["kit::Limits { lo: 1, hi: ("] + s() + ["), name: String::new() }.hi"]
        if k == 25:
            return ["(move || -> i64 { return "] + s() + [" })()"]
        if k == 26:
            return ["{ struct Q<A, B>(A, B); const N: i64 = 3; let q = Q::<i64, u8>("] + s() + [", 1); q.0 + N }"]
        self.ev += 1
        return [f"kit::ev({self.ev}, "] + s() + [")"]

    def operand(self):
        """A number of type i64 that can stand wherever an operand can; not zero."""
        opts = []
        for i in self.of("i64"):
            opts += [[F(i), ".clone()"], [F(i), ".wrapping_add(0)"]]
        for i in self.of("pair"):
            opts += [[F(i), ".0"]]
        for i in self.of("nest"):
            opts += [[F(i), ".0.0"], [F(i), ".1"], [F(i), ".0 .0"]]
        for i in self.of("limits"):
            opts += [[F(i), ".lo"], [F(i), ".hi"], [F(i), ".span()"]]
        for i in self.of("tup"):
            opts += [[F(i), ".0"]]
        for i in self.of("opt"):
            opts += [[F(i), ".unwrap_or(7)"]]
        for i in self.of("wide"):
            opts += [[F(i), ".0"], [F(i), ".12.1"], [F(i), ".10"]]
        if not opts or chance(self.draw, 1, 4):
            return [str(num(self.draw, 1, 40)) + "i64"]
        return pick(self.draw, opts)

    def shape(self, pool):
        """One of the forms of expression in exprs.py."""
        return exprs.split(pick(self.draw, pool), self.operand)

    def bool(self, d=1):
        draw = self.draw
        opts = [["true"], ["1 < 2"]]
        for i in self.of("bool"):
            opts += [["*", F(i)], ["!", F(i)], ["!*", F(i)]]
        for i in self.of("opt"):
            opts += [[F(i), ".is_some()"], ["matches!(", F(i), ", Some(_))"]]
        for i in self.of("i64"):
            opts += [["*", F(i), " < 3"], ["4 > *", F(i)], ["*", F(i), " == 3"], ["*", F(i), " != 3"]]
        for i in self.of("vec"):
            opts += [[F(i), ".is_empty()"]]
        if d <= 0:
            return pick(draw, opts)
        k = num(draw, 0, 5)
        b = lambda: ["("] + self.bool(d - 1) + [")"]  # noqa: E731
        if k <= 2:
            return pick(draw, opts)
        if k == 3:
            return b() + [pick(draw, [" && ", " || ", " ^ "])] + b()
        if k == 4:
            return ["("] + self.int(d - 1) + [")", pick(draw, [" < ", " > ", " <= ", " >= ", " == ", " != "]),
                                               "("] + self.int(d - 1) + [")"]
        return ["!"] + b()

    def usize(self):
        opts = [["3"], ["0"], ["9usize"]]
        for i in self.of("usize"):
            opts += [["*", F(i)], ["*", F(i)]]
        for i in self.of("vec", "string", "str"):
            opts += [[F(i), ".len()"]]
        if self.rich:
            opts += [["core::mem::size_of::<kit::Two<u8, u16>>()"]]
        return pick(self.draw, opts)

    def any(self):
        """(tokens, caps)"""
        draw = self.draw
        if self.rich and chance(draw, 1, 2):
            k = num(draw, 0, 5)
            if k == 5:
                return self.shape(exprs.OTHERS), "?"
            return self.shape(exprs.VALUES), "D?"
        k = num(draw, 0, 9)
        if k <= 3:
            return self.int(2), INTS
        if k == 4:
            return self.bool(2), "D?"
        fs = [i for i, f in enumerate(self.fields) if f["cls"] not in ("touchy", "path", "fail", "src")]
        if k == 5 and fs:
            i = pick(draw, fs)
            caps = self.fields[i]["caps"]
            return [F(i)], "".join(dict.fromkeys(caps + "p"))  # a reference to the field
        al = self.of("allfmt")
        if k == 6 and al:
            return [pick(draw, ["*", "&", ""]), F(pick(draw, al))], INTS
        pr = self.of("pair", "nest", "wide", "wide")
        if k == 7 and pr:
            i = pick(draw, pr)
            if self.fields[i]["cls"] == "wide":
                return [F(i), "." + pick(draw, ["0", "9", "10", "11", "12.0", "12.1", "12 .0"])], INTS
            return [F(i), ".1" if self.fields[i]["cls"] == "pair" else ".0.1"], INTS
        s = self.of("string", "str")
        if k == 8 and s:
            i = pick(draw, s)
            return pick(draw, [
                [F(i), ".to_uppercase()"],
                [F(i), ".chars().rev().collect::<String>()"],
                ["format!(\"{}, {a}\", ", F(i), ", a = 1)"],
                [F(i), ".is_empty().then(|| \"empty, yes\").unwrap_or(\"no\")"],
            ]), "D?"  # fmt: skip
        return pick(draw, [
            (["\"lit, x = {}\""], "D?"),
            (["'{'"], "D?"),
            (["1.5"], "D?eE"),
            (["kit::AllFmt(9)"], INTS + "p"),
            (["&kit::AllFmt(9)"], INTS),
            (["&5i64 as &dyn kit::Named<u8, Out = i64>"], "D?"),
            (["&5i64 as &dyn kit::Named<u8, Out = i64>"], "D?"),
            (["kit::add2 as fn(&i64, &i64) -> i64"], "?p"),
            (["0..3"], "?"),
            ([".."], "?"),
            (["1.."], "?"),
            (["..=4"], "?"),
            (["b\"bytes, = \""], "?"),
            (["r#\"raw, x = 1\"#"], "D?"),
            (["(1, 2)"], "?"),
            (["for _ in 0..2 {}"], "?"),
            (["kit::W9 == 9"], "D?"),
            (["W9 == 9"], "D?"),
            (["concat!(\"a\", 1, 'b')"], "D?"),
            (["const { 3i64 + 4 }"], INTS),
            (["Option::<i64>::None"], "?"),
            (["{ 1; 2i64 }"], INTS),
            (["\"x\" as &str"], "D?"),
            (["-1.0f64 as i64 as u8"], INTS),
        ] if self.rich else [(["\"lit\""], "D?"), (["7"], INTS), (["kit::AllFmt(9)"], INTS + "p")])  # fmt: skip


def expr_text(toks, fref):
    return "".join(t if isinstance(t, str) else fref(t["f"]) for t in toks)


# ---------------------------------------------------------------------------
# Messages.

FILLS = [None, None, None, "*", "0", " ", "}", "{", "x", "?", "p", "é", "<", "^", "#", "\U0001f980", ".", ":", "$", "+", "e", "X"]
ARG_NAMES = ["arg", "w", "n0", "val", "r#type", "r#in", "__field_x", "__display_x", "__field0", "max", "_u", "__pointer_a", "__display0"]


def draw_spec(draw, caps, pos_width, named, star_ok):
    """caps: what the argument can do. named: [(name, type)] named args; usize ones can be widths."""
    cap = pick(draw, sorted(caps))
    ty = pick(draw, CAP_TY[cap])
    spec = {"ty": ty}
    if chance(draw, 1, 12):
        spec["ws"] = pick(draw, [" ", "  ", "\n"])
    if cap == "P":
        return spec
    if not chance(draw, 2, 5):
        return spec
    if chance(draw, 1, 2):
        spec["align"] = pick(draw, ["<", ">", "^"])
        fill = pick(draw, FILLS)
        if fill:
            spec["fill"] = fill
    if chance(draw, 1, 4):
        spec["sign"] = pick(draw, ["+", "-"])
    if chance(draw, 1, 3) and not ty.startswith("#"):
        spec["alt"] = 1
    if chance(draw, 1, 4):
        spec["zero"] = 1
    us = [n for n, t in named if t == "usize"]
    if chance(draw, 3, 5):
        k = num(draw, 0, 5)
        if k == 5 and us:
            spec["width"] = ["name", pick(draw, us)]
        elif k == 4:
            spec["width"] = ["const", "W9"]
        elif k == 3 and pos_width is not None:
            spec["width"] = ["pos", pos_width]
        else:
            spec["width"] = ["lit", num(draw, 1, 30)]
    if chance(draw, 1, 3):
        k = num(draw, 0, 5)
        if k == 5 and us:
            spec["prec"] = ["name", pick(draw, us)]
        elif k == 4:
            spec["prec"] = ["const", "W9"]
        elif k == 3 and star_ok:
            spec["prec"] = ["star"]
        else:
            spec["prec"] = ["lit", num(draw, 0, 9)]
    return spec


def message(draw, shape, fields, rich=False, args=True, segs_hi=5, hide=("touchy", "fail"), selfdebug=True):
    """A message for a container of this shape. All explicit args are used exactly as
    format_args! demands; only documented forms are produced."""
    ex = Exprs(draw, fields, rich)
    tuple_fields = shape == "tuple" and bool(fields)
    pos, named = [], []
    if args and chance(draw, *((5, 6) if rich else (1, 4) if tuple_fields else (1, 2))):
        for _ in range(num(draw, 1 if rich else 0, 3 if rich else 2)):
            if chance(draw, 1, 5):
                pos.append({"e": ex.usize(), "caps": "D?", "t": "usize"})
            else:
                e, caps = ex.any()
                pos.append({"e": e, "caps": caps, "t": "any"})
        nn = num(draw, 0, 2)
        taken = set()
        for _ in range(nn):
            pool = list(ARG_NAMES)
            for f in fields:  # shadowing a field by name is allowed
                if f["name"]:
                    pool.append(f["name"])
            if fields and chance(draw, 1, 5):  # so are the names that the expansion would choose for its own arguments
                f = pick(draw, list(enumerate(fields)))
                own = "_" + unraw(f[1]["name"]) if f[1]["name"] else str(f[0])
                pool = ["_" * num(draw, 0, 2) + pre + own for pre in ("__display", "__field", "__pointer")]
            nm = pick(draw, pool)
            if unraw(nm) in taken:
                continue
            taken.add(unraw(nm))
            if chance(draw, 2, 5):
                named.append({"n": nm, "e": ex.usize(), "caps": "D?", "t": "usize"})
            else:
                e, caps = ex.any()
                named.append({"n": nm, "e": e, "caps": caps, "t": "any"})
    named_keys = {unraw(a["n"]) for a in named}
    usable = [
        i for i, f in enumerate(fields)
        if f["cls"] not in hide and f["caps"] and not (f["name"] and unraw(f["name"]) in named_keys)
    ]  # fmt: skip
    if tuple_fields and pos:
        usable = []  # a number would be ambiguous: rejected by design
    nxt = 0
    used_pos, used_named = set(), set()
    segs = []
    names_t = [(a["n"], a["t"]) for a in named]

    def pos_usize():
        c = [i for i, p in enumerate(pos) if p["t"] == "usize"]
        return c[-1] if c else None

    def add(arg, caps):
        nonlocal nxt
        star_ok = nxt < len(pos) and pos[nxt]["t"] == "usize" and arg[0] != "next"
        if arg[0] == "next":  # {:.*} takes the precision first
            star_ok = nxt + 1 < len(pos) and pos[nxt]["t"] == "usize"
        sp = draw_spec(draw, caps, pos_usize(), names_t, star_ok)
        if arg[0] == "next" and sp.get("prec") == ["star"]:
            # the value is the one after the precision; its caps decide the type letter
            sp = {**draw_spec(draw, pos[nxt + 1]["caps"], None, [], False), "prec": ["star"]}
        for k in ("width", "prec"):
            if k in sp:
                if sp[k][0] == "name":
                    used_named.add(unraw(sp[k][1]))
                elif sp[k][0] == "pos":
                    used_pos.add(sp[k][1])
        if sp.get("prec") == ["star"]:
            used_pos.add(nxt)
            sp["prec"] = ["star", nxt]
            nxt += 1
        if arg[0] == "next":
            used_pos.add(nxt)
            arg = ["next", nxt]
            nxt += 1
        segs.append({"arg": arg, "spec": sp})

    for _ in range(num(draw, 12, 26) if segs_hi > 3 and chance(draw, 1, 40) else pick(draw, [0] + list(range(1, segs_hi + 1)) * 4)):
        k = num(draw, 0, 15)
        if k <= 2:
            segs.append({"lit": literal(draw, 1, 3)})
        elif k <= 11:
            if usable:
                i = pick(draw, usable)
                add(["field", i], fields[i]["caps"])
        elif k <= 13:
            if nxt < len(pos):
                add(["next"], pos[nxt]["caps"])
        elif k == 14:
            if named:
                a = pick(draw, named)
                used_named.add(unraw(a["n"]))
                add(["named", a["n"]], a["caps"])
            elif pos and not tuple_fields:
                j = num(draw, 0, len(pos) - 1)
                used_pos.add(j)
                add(["pos", j], pos[j]["caps"])
        else:
            if chance(draw, 1, 2) or not selfdebug:
                add(["const", pick(draw, ["MSG", "W9"])], "D?")
            else:
                add(["self"], "?")
    if len(usable) > 8 and chance(draw, 1, 2):  # all of many fields
        for i in usable[num(draw, 0, 2):]:
            add(["field", i], fields[i]["caps"])
    # Everything given must be used.
    while tuple_fields and any(j not in used_pos for j in range(len(pos))) and nxt < len(pos):
        add(["next"], pos[nxt]["caps"])
    for j in range(len(pos)):
        if j not in used_pos:
            used_pos.add(j)
            add(["pos", j], pos[j]["caps"])
    for a in named:
        if unraw(a["n"]) not in used_named:
            add(["named", a["n"]], a["caps"])
    return {
        "kind": "msg", "segs": segs, "pos": pos, "named": named,
        "style": string_style(draw), "comma": num(draw, 0, 1),
    }  # fmt: skip


def spec_text(sp, oracle=False):
    """The format spec as written by the user; for the oracle, with w$ and p$ for any counted
    part and without trailing whitespace."""
    s = sp.get("fill", "") + sp.get("align", "") + sp.get("sign", "")
    s += "#" if sp.get("alt") or sp["ty"].startswith("#") else ""
    s += "0" if sp.get("zero") else ""
    w = sp.get("width")
    if w:
        if w[0] == "lit":
            s += str(w[1])
        elif oracle:
            s += "w$"
        else:
            s += (str(w[1]) if w[0] == "pos" else unraw(w[1])) + "$"
    p = sp.get("prec")
    if p:
        s += "."
        if p[0] == "lit":
            s += str(p[1])
        elif oracle:
            s += "p$"
        elif p[0] == "star":
            s += "*"
        else:
            s += unraw(p[1]) + "$"
    s += sp["ty"].lstrip("#")
    return s


def msg_format(msg, fields):
    """The format string (its value, not yet a Rust literal)."""
    out = []
    for seg in msg["segs"]:
        if "lit" in seg:
            out.append(seg["lit"].replace("{", "{{").replace("}", "}}"))
            continue
        arg, sp = seg["arg"], seg["spec"]
        if arg[0] == "field":
            nm = fields[arg[1]]["name"]
            a = str(arg[1]) if nm is None else unraw(nm)
        elif arg[0] == "next":
            a = ""
        elif arg[0] == "pos":
            a = str(arg[1])
        elif arg[0] == "named":
            a = unraw(arg[1])
        elif arg[0] == "const":
            a = arg[1]
        else:
            a = "self"
        s = spec_text(sp)
        out.append("{" + a + (":" + s if s else "") + sp.get("ws", "") + "}")
    return "".join(out)


def msg_attr(msg, fields):
    """The inside of #[error(...)] for thiserror."""

    def fref(i):
        nm = fields[i]["name"]
        return "." + (str(i) if nm is None else nm)

    parts = [styled_str(msg_format(msg, fields), msg["style"])]
    parts += [expr_text(a["e"], fref) for a in msg["pos"]]
    parts += [f"{a['n']} = {expr_text(a['e'], fref)}" for a in msg["named"]]
    return ", ".join(parts) + ("," if msg["comma"] else "")


def msg_oracle(msg, fields, slf="v"):
    """Statements that write the message to `f`, with r{i} bound to a reference to field i."""
    fref = lambda i: f"(r{i})"  # noqa: E731
    # Each argument is evaluated once, in order, before anything is written.
    binds = [expr_text(a["e"], fref) for a in msg["pos"]] + [expr_text(a["e"], fref) for a in msg["named"]]
    npos = len(msg["pos"])
    idx = {unraw(a["n"]): npos + j for j, a in enumerate(msg["named"])}
    body = []
    for seg in msg["segs"]:
        if "lit" in seg:
            body.append(f"f.write_str({rust_str(seg['lit'])})?;")
            continue
        arg, sp = seg["arg"], seg["spec"]
        if arg[0] == "field":
            fl = fields[arg[1]]
            val = f"r{arg[1]}" if fl.get("unsized") else f"*r{arg[1]}"
            if "P" in fl["caps"] and sp["ty"] == "":
                val = f"r{arg[1]}.display()"
        elif arg[0] in ("next", "pos"):
            val = f"*a{arg[1]}"
        elif arg[0] == "named":
            val = f"*a{idx[unraw(arg[1])]}"
        elif arg[0] == "const":
            val = f"kit::{arg[1]}"
        else:
            val = slf
        extra = ""
        for k, letter in (("width", "w"), ("prec", "p")):
            c = sp.get(k)
            if c and c[0] != "lit":
                if c[0] in ("pos", "star"):
                    extra += f", {letter} = *a{c[1]}"
                elif c[0] == "name":
                    extra += f", {letter} = *a{idx[unraw(c[1])]}"
                else:
                    extra += f", {letter} = kit::{c[1]}"
        s = spec_text(sp, oracle=True)
        fmt = rust_str("{" + (":" + s if s else "") + "}")
        body.append(f"kit::write!(f, {fmt}, {val}{extra})?;")
    body.append("Ok(())")
    inner = "\n".join("            " + b for b in body)
    if not binds:
        return inner
    tup = "".join(f"&({b}), " for b in binds)
    pats = "".join(f"a{j}, " for j in range(len(binds)))
    return f"            match ({tup}) {{ ({pats}) => {{\n{inner}\n            }} }}"


# ---------------------------------------------------------------------------
# Definitions.


def pattern(path, fields, bind=None):
    """A pattern that binds r{i} to each field, whatever the shape."""
    inner = ", ".join(
        f"{i if f['name'] is None else f['name']}: r{i}" for i, f in enumerate(fields) if bind is None or i in bind
    )
    if bind is not None and len(bind) < len(fields):
        inner = inner + ", .." if inner else ".."
    return f"{path} {{ {inner} }}"


def construct(path, fields, which=0):
    inner = ", ".join(
        f"{i if f['name'] is None else f['name']}: {f['vals'][which]}" for i, f in enumerate(fields)
    )
    return f"{path} {{ {inner} }}"


def fields_decl(shape, fields, with_attrs, vis="pub "):
    if shape == "unit":
        return ""
    parts = []
    for f in fields:
        at = "".join(a + " " for a in f["attrs"]) if with_attrs else ""
        at += "".join(a + " " for a in f.get("noise", []) if with_attrs or not a.startswith("#[from"))
        nm = "" if f["name"] is None else f["name"] + ": "
        if f.get("ghost"):
            parts.append(f"#[cfg(any())] {'' if f['name'] is None else 'ghost: '}Missing")
        parts.append(f"{at}{f.get('vis', vis) if vis else ''}{nm}{f.get('gty') or f['ty']}")
    inner = ", ".join(parts)
    return f" {{ {inner} }}" if shape == "named" else f"({inner})"
