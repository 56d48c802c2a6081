"""Definitions compiled with every lint of rustc and clippy turned on, with the derive and with handwritten impls."""

import collections
import os
import re
import subprocess

from hypothesis import strategies as st

from .. import build, defs, engine, full, gen, sources
from ..engine import Fail, HarnessError, Ok
from ..gen import chance, num, pick

#: Lints that say something about the harness, or that fire on any derive.
SKIP = {
    "unused_crate_dependencies", "unused_extern_crates", "clippy::non_ascii_literal",
    # About what the definition itself says: the names in it and the text of the message.
    "clippy::disallowed_script_idents", "clippy::literal_string_with_formatting_args",
    "clippy::octal_escapes", "clippy::invisible_characters", "clippy::unicode_not_nfc", "clippy::needless_raw_strings",
    "clippy::needless_raw_string_hashes", "text_direction_codepoint_in_literal",
}  # fmt: skip

OLD = [
    {"ty": "OldLeaf", "vals": ["OldLeaf(1)"], "addr": [], "dyn": "s", "down": None, "cls": "deprecated"},
    {"ty": "std::convert::Infallible", "vals": ["unreachable!()"], "addr": [], "dyn": "s", "down": None, "cls": "never"},
]  # fmt: skip
OLD_TYPES = [
    ("OldLeaf", "D?", ["OldLeaf(2)"], "deprecated"),
    ("OldLeaf", "D?", ["OldLeaf(2)"], "deprecated"),
    ("std::convert::Infallible", "D?", ["unreachable!()"], "never"),
    ("&'a str", "D?p", ['"x"'], "life"),
    ("&'a str", "D?p", ['"x"'], "life"),
]  # fmt: skip
BT = "std::backtrace::Backtrace"
#: Type, whether it needs the attribute, what From makes of the captured one.
BACKTRACES = [(BT, False, "{}"), (f"Option<{BT}>", True, "Some({})"), (f"Box<{BT}>", True, "Box::new({})"), (f"std::sync::Arc<{BT}>", True, "std::sync::Arc::new({})")]
DOC = "/// Documented."
CONTAINER = ["#[deprecated]", "#[deprecated(since = \"1\", note = \"old\")]", "#[must_use]", "#[non_exhaustive]", DOC, "#[doc(hidden)]", "#[allow(dead_code)]"]
VARIANT = ["#[deprecated]", "#[deprecated = \"old\"]", DOC, "#[doc(hidden)]", "#[non_exhaustive]", "#[allow(dead_code)]"]
FIELD = ["#[deprecated]", "#[deprecated = \"old\"]", DOC, "#[doc(hidden)]", "#[allow(dead_code)]", "#[cfg(all())]"]
HEAD = """#[allow(warnings, clippy::all, clippy::pedantic, clippy::nursery, clippy::restriction)]
pub mod old {
    #[deprecated] #[derive(Debug)] pub struct OldLeaf(pub u32);
    impl std::fmt::Display for OldLeaf { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str("old") } }
    impl std::error::Error for OldLeaf {}
}
"""
ALLOW = "#[allow(warnings, clippy::all, clippy::pedantic, clippy::nursery, clippy::restriction)]"
ARGS = [
    ("len", ["string", "str"], "{}.len()"), ("deref", ["i64"], "*{}"), ("plain", None, "{}"), ("neg", ["bool"], "!{}"),
]  # fmt: skip


def backtrace(draw, v):
    """A backtrace, or a source marked as providing one: for the compiler that has provide()."""
    fs = v["fields"]
    if v["msg"]["kind"] == "path" or v["shape"] == "unit":
        return
    if v["msg"]["kind"] == "msg" and chance(draw, 1, 3):
        name = pick(draw, [n for n in ("backtrace", "bt", "r#trace") if all(n != f["name"] for f in fs)])
        ty, marked, init = pick(draw, BACKTRACES)
        fs.append({
            "name": None if v["shape"] == "tuple" else name, "ty": ty, "caps": "", "cls": "bt", "opt": False, "vals": ["_"] * 2,
            "attrs": ["#[backtrace]"] if marked or chance(draw, 1, 3) else [], "init": init,
        })  # fmt: skip
    src = v["src"] if v["msg"]["kind"] == "msg" else 0 if sources.is_from(fs[0]) else None
    if src is not None and all(f["cls"] != "bt" for f in fs) and chance(draw, 1, 3):
        fs[src]["marked"] = True


@st.composite
def cases(draw):
    c = full.container(draw, types=full.TYPES + OLD_TYPES, pool=sources.SOURCES + OLD * 2, rich=False, args=False)
    c["vis"] = pick(draw, ["pub ", "pub ", "pub(crate) ", ""])
    c["deco"] = [pick(draw, CONTAINER)] if chance(draw, 1, 2) else []
    c["life"] = any("'a" in f["ty"] for v in c["variants"] for f in v["fields"])
    for v in c["variants"]:
        if v["msg"]["kind"] == "msg":
            v["msg"]["style"] = ["plain"]
    c["place"] = pick(draw, ["mod", "mod", "mod", "fn"])
    c["where"] = pick(draw, ["", "", "std::fmt::Debug", "Clone + std::fmt::Debug"]) if any(p.startswith("P") for p in c["params"]) else ""
    if c["kind"] == "enum" and chance(draw, 1, 15):
        c["variants"], c["params"], c["where"], c["life"] = [], [], "", False
    for v in c["variants"]:
        backtrace(draw, v)
        v["deco"] = [pick(draw, VARIANT)] if c["kind"] == "enum" and chance(draw, 1, 3) else []
        for f in v["fields"]:
            f["deco"] = [pick(draw, FIELD)] if chance(draw, 1, 4) else []
            if "OldLeaf" in f["ty"]:
                f["deco"] = ["#[allow(deprecated)]"]
            f["vis"] = pick(draw, ["pub ", "pub ", "pub(crate) ", ""])
        if v["msg"]["kind"] == "msg" and chance(draw, 1, 4):
            # A simple argument with shorthand.
            opts = [(i, t) for i, f in enumerate(v["fields"]) for _, cl, t in ARGS if f["cls"] != "path" and f["caps"] and "D" in f["caps"] and (cl is None or f["cls"] in cl)]
            if opts and not (v["shape"] == "tuple" and any("arg" in s and s["arg"][0] == "field" for s in v["msg"]["segs"])):
                i, t = pick(draw, opts)
                a, b = t.split("{}")
                v["msg"]["named"].append({"n": "arg0", "e": [x for x in (a, {"f": i}, b) if x != ""], "caps": "D", "t": "any"})
                v["msg"]["segs"].append({"arg": ["named", "arg0"], "spec": {"ty": ""}})
        if v["msg"]["kind"] == "msg" and chance(draw, 1, 25):
            segs = v["msg"]["segs"]
            # Placeholders of fields and arguments may follow it.
            at = pick(draw, [0, len(segs)])
            segs.insert(at, {"arg": ["self"], "spec": {"ty": "", **({"width": ["lit", 5]} if chance(draw, 1, 3) else {})}})
    return c


def recursive(c):
    return sum(
        v["msg"]["kind"] == "msg" and any("arg" in s and s["arg"][0] == "self" and s["spec"]["ty"] == "" for s in v["msg"]["segs"])
        for v in c["variants"]
    )  # fmt: skip


def generics(c):
    ps = (["'a"] if c["life"] else []) + c["params"]
    return "<" + ", ".join(ps) + ">" if ps else ""


def bare_generics(c):
    ps = (["'a"] if c["life"] else []) + [re.sub(r"^(const )?(\w+).*", r"\2", p) for p in c["params"]]
    return "<" + ", ".join(ps) + ">" if ps else ""


def impl_generics(c):
    ps = (["'a"] if c["life"] else []) + [re.sub(r" = .*", "", p) for p in c["params"]]
    return "<" + ", ".join(ps) + ">" if ps else ""


def fields(v, derive, struct):
    if v["shape"] == "unit":
        return ""
    out = []
    for f in v["fields"]:
        at = "".join(a + "\n        " for a in f["deco"])
        if derive:
            at += "".join(a + " " for a in f["attrs"] + (["#[backtrace]"] if f.get("marked") else []))
        out.append("\n        " + at + (f["vis"] if struct else "") + ("" if f["name"] is None else f["name"] + ": ") + f["ty"] + ",")
    o, e = ("{", "}") if v["shape"] == "named" else ("(", ")")
    return f" {o}{''.join(out)}\n    {e}" if out else f" {o}{e}"


def decl(c, mode):
    derive = mode == "derive"
    out = list(c["deco"])
    out.append("#[derive(Debug, thiserror::Error)]" if derive else "#[derive(Debug)]")
    wh = f" where P: {c['where']}" if c["where"] else ""
    if c["kind"] == "struct":
        v = c["variants"][0]
        if derive:
            out.append(full.attr(v))
        b = fields(v, derive, True)
        if v["shape"] == "named":
            out.append(f"{c['vis']}struct T{generics(c)}{wh}{b}")
        else:
            out.append(f"{c['vis']}struct T{generics(c)}{b}{wh};")
    else:
        out.append(f"{c['vis']}enum T{generics(c)}{wh} {{")
        for v in c["variants"]:
            out += ["    " + d for d in v["deco"]]
            if derive:
                out.append("    " + full.attr(v))
            out.append(f"    {v['name']}{fields(v, derive, False)},")
        out.append("}")
    return "\n".join(out)


def hand(c):
    ig, bg = impl_generics(c), bare_generics(c)
    wh = f" where P: {c['where']}" if c["where"] else ""
    werr = "where " + ", ".join(([f"P: {c['where']}"] if c["where"] else []) + [f"T{bg}: std::fmt::Debug"])
    # dead_code as in any other code: what is under an allow of it counts as used.
    out = []
    out.append(f"impl{ig} std::fmt::Display for T{bg}{wh} {{ fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {{ f.write_str(\"\") }} }}")
    out.append(f"impl{ig} std::error::Error for T{bg} {werr} {{}}")
    for v in c["variants"]:
        for i, f in enumerate(v["fields"]):
            if sources.is_from(f):
                out.append(sources.hand_from(defs.path(c, v), v, i, ig, f"T{bg}", wh))
    # No allow: what is under an allow of dead_code counts as used. What is on these lines is left out.
    return "\n".join(x.replace("\n", " ") + HANDMARK for x in out)


HANDMARK = " // handwritten"
_lints = {}


def lint_flags(built, clippy):
    key = built.rustc
    if key not in _lints:
        r = subprocess.run([built.rustc, "-W", "help"], capture_output=True, text=True, env=build.base_env(built.env))
        names = re.findall(r"^ +([a-z][a-z0-9-]+) +(?:allow|warn) ", r.stdout, re.M)
        if len(names) < 100:
            raise HarnessError("cannot list the lints: " + r.stderr)
        _lints[key] = ["-W" + n for n in names if n.replace("-", "_") not in SKIP]
    flags = list(_lints[key])
    if clippy:
        flags += ["-Wclippy::all", "-Wclippy::pedantic", "-Wclippy::nursery", "-Wclippy::restriction"]
    return flags


class C16(engine.Prop):
    id = "C16"
    title = "The expansion triggers no lints"
    rule = "the definition has a message with a placeholder, source, conversion, transparent variant or path"
    per_worker = {"quick": 450, "thorough": 1000}
    rounds = {"quick": 3, "thorough": 14}
    has_control = False

    def configs(self):
        return ["stable"] * 4 + ["nightly", "synfull", "older", "stable+2018", "stable+2024"]

    def edition(self, cfg):
        m = re.search(r"\+(20\d\d)", cfg)
        return m.group(1) if m else "2021"

    def strategy(self):
        return cases()

    def emit(self, c, mode, cfg):
        if not cfg.startswith("nightly"):
            # No provide() there, and no use of a backtrace.
            c = dict(c, variants=[dict(v, fields=[dict(f, marked=False) for f in v["fields"] if f["cls"] != "bt"]) for v in c["variants"]])
        d = decl(c, mode) + ("\n" + hand(c) if mode != "derive" else "")
        uses = ALLOW + " use crate::old::OldLeaf;\n" + ALLOW + " use kit::{raw, MSG, W9};\n"
        if c["place"] == "fn":
            return uses + "#[allow(clippy::too_many_lines)] pub fn place() {\n" + d + "\n}"
        return uses + d

    def lint(self, cases, mode, cfg):
        """For each case: a Counter of lint codes on it, with one rendering each."""
        built = build.build(cfg)
        clippy = not cfg.startswith(("older", "nightly"))
        todo = list(enumerate(cases))
        res = [None] * len(cases)
        while todo:
            src = ("#![feature(error_generic_member_access)]\n" if cfg.startswith("nightly") else "") + HEAD
            line = src.count("\n") + 1
            ranges = {}
            parts = []
            for i, c in todo:
                text = f"pub mod c{i} {{\n{self.emit(c, mode, cfg)}\n}}\n"
                n = text.count("\n")
                ranges[i] = (line, line + n - 1)
                line += n
                parts.append(text)
            skip = {n for n, x in enumerate((src + "".join(parts)).split("\n"), 1) if x.endswith(HANDMARK)}
            driver = os.path.join(os.path.dirname(built.rustc), "clippy-driver") if clippy else built.rustc
            with engine.Work() as wd:
                b = Driver(built, driver)
                rc, _, diags, err = engine.compile_src(
                    b, wd, src + "".join(parts), edition=self.edition(cfg), emit="metadata", extra=["--crate-type=lib", *lint_flags(built, clippy)],
                )  # fmt: skip
            if rc == 0:
                for i, _ in todo:
                    res[i] = (collections.Counter(), {})
                for d in diags:
                    code = (d.get("code") or {}).get("code") or d["message"]
                    if code in SKIP:
                        continue
                    ls = engine.span_lines(d, "case.rs")
                    if any(p and a in skip and z in skip for p, a, z in ls):
                        continue
                    for i, (a, z) in ranges.items():
                        if any(p and a <= lo <= z for p, lo, hi in ls):
                            res[i][0][code] += 1
                            res[i][1].setdefault(code, d.get("rendered") or d["message"])
                            break
                return res
            bad = engine.Batch(self, cfg, mode).blame(diags, ranges)
            if not bad:
                if len(todo) > 1:
                    raise HarnessError("clippy failed without an error in a case:\n" + err[-3000:])
                bad = {todo[0][0]: err}
            for i, text in bad.items():
                res[i] = text
            todo = [(i, c) for i, c in todo if i not in bad]
        return res

    def verdicts(self, cases, cfg, mode="derive"):
        got = self.lint(cases, "derive", cfg)
        want = self.lint(cases, "hand", cfg)
        out = []
        for c, g, w in zip(cases, got, want):
            if isinstance(w, str):
                out.append(Fail("discard", w))
                continue
            if isinstance(g, str):
                out.append(Fail("does not compile", g))
                continue
            rec = recursive(c)
            bad = []
            for code, n in g[0].items():
                if code == "unconditional_recursion":
                    continue
                if n > w[0].get(code, 0):
                    bad.append((code, g[1][code]))
            if bool(rec) != bool(g[0].get("unconditional_recursion")) or g[0].get("unconditional_recursion", 0) > rec:
                out.append(Fail("recursion", f"{rec} messages display themselves, {g[0].get('unconditional_recursion', 0)} warnings"))
            elif bad:
                out.append(Fail("lint", " || ".join(f"{a}: {b}" for a, b in bad)))
            else:
                out.append(Ok(1 + sum(g[0].values())))
        return out

    def nontrivial(self, c):
        return bool(c["variants"]) and full.nontrivial(c)

    def labels(self, c):
        out = full.labels(c) + ["in a " + c["place"], "visibility " + (c["vis"].strip() or "private")]
        for v in c["variants"]:
            for x in v["deco"]:
                out.append("variant " + x[:12])
            for f in v["fields"]:
                for x in f["deco"]:
                    out.append("field " + x[:12])
        out += ["container " + x[:12] for x in c["deco"]]
        if recursive(c):
            out.append("displays itself")
        if c["life"]:
            out.append("lifetime")
        if not c["variants"]:
            out.append("empty enum")
        return sorted(set(out))


class Driver:
    """The clippy driver in place of rustc."""

    def __init__(self, built, driver):
        self.built, self.rustc = built, driver
        self.env = dict(built.env or {})
        self.env["SYSROOT"] = os.path.dirname(os.path.dirname(built.rustc))
        self.env["CLIPPY_DISABLE_DOCS_LINKS"] = "1"

    def rustc_args(self, bare=False):
        return self.built.rustc_args(bare)


PROP = C16()
