"""What the derive adds to a program: impls of Error, Display and From, and nothing else."""

import collections
import json
import os

from hypothesis import strategies as st

from .. import build, engine, full, gen, sources
from ..engine import Batch, Fail, HarnessError, Ok, Work
from ..gen import chance, num, pick

E = "std::error::Error"
#: Traits that a type may or may not implement; each is asked of the derived type and of its twin.
TRAITS = [
    "Clone", "Copy", "Default", "PartialEq<u8>", "PartialOrd<u8>", "std::hash::Hash", "Send", "Sync", "Unpin",
    "std::panic::UnwindSafe", "std::panic::RefUnwindSafe", "std::fmt::Debug", "std::fmt::Display", "std::fmt::LowerHex", "std::fmt::UpperHex",
    "std::fmt::Octal", "std::fmt::Binary", "std::fmt::LowerExp", "std::fmt::UpperExp", "std::fmt::Pointer", "std::fmt::Write", "std::io::Write",
    "std::io::Read", "ToString", "ToOwned", E, "std::ops::Deref", "std::ops::DerefMut", "std::ops::Not", "std::ops::Neg", "std::ops::Add<u8>",
    "std::ops::Index<usize>", "Iterator", "IntoIterator", "std::future::Future", "std::str::FromStr", "std::process::Termination",
    "AsRef<str>", "AsRef<[u8]>", "AsRef<std::path::Path>", f"AsRef<dyn {E}>", f"std::borrow::Borrow<dyn {E}>", "std::borrow::Borrow<str>",
    "From<String>", "From<&'static str>", "From<()>", "From<u8>", "From<std::io::Error>", "From<std::fmt::Error>", "From<kit::Leaf>",
    "From<Option<kit::Leaf>>", "From<Box<kit::Leaf>>", f"From<Box<dyn {E}>>", f"From<Box<dyn {E} + Send + Sync>>", "From<kit::anyhow::Error>",
    "From<std::convert::Infallible>", "From<std::num::ParseIntError>", "From<kit::Node>", "From<std::backtrace::Backtrace>",
    "TryFrom<kit::Leaf, Error = std::convert::Infallible>",
    "Into<String>", f"Into<Box<dyn {E}>>", f"Into<Box<dyn {E} + Send + Sync>>", "Into<kit::anyhow::Error>", "Into<std::io::Error>",
    "Into<kit::Leaf>", "Into<Option<kit::Leaf>>", "PartialEq<str>", "PartialEq<kit::Leaf>", "Extend<u8>", "std::any::Any",
]  # fmt: skip
#: What a program may have beside the derive, (needs no parameters, text).
BESIDE = [
    (0, "impl Clone for T { fn clone(&self) -> T { unreachable!() } }"),
    (0, "impl Default for T { fn default() -> T { unreachable!() } }"),
    (0, "impl PartialEq for T { fn eq(&self, _: &T) -> bool { false } }"),
    (0, "impl PartialEq<str> for T { fn eq(&self, _: &str) -> bool { false } }"),
    (0, "impl std::hash::Hash for T { fn hash<H: std::hash::Hasher>(&self, _: &mut H) {} }"),
    (1, "impl Drop for T { fn drop(&mut self) {} }"),
    (0, "pub struct Own; impl From<Own> for T { fn from(_: Own) -> T { unreachable!() } }"),
    (0, "impl From<T> for String { fn from(_: T) -> String { String::new() } }"),
    (0, "impl From<T> for std::io::Error { fn from(_: T) -> std::io::Error { unreachable!() } }"),
    (0, "impl From<T> for kit::Leaf { fn from(_: T) -> kit::Leaf { kit::Leaf(1) } }"),
    (0, "impl From<T> for Option<kit::Leaf> { fn from(_: T) -> Option<kit::Leaf> { None } }"),
    (0, "impl AsRef<str> for T { fn as_ref(&self) -> &str { \"as\" } }"),
    (0, f"impl AsRef<dyn {E}> for T {{ fn as_ref(&self) -> &(dyn {E} + 'static) {{ self }} }}"),
    (0, f"impl std::borrow::Borrow<dyn {E}> for T {{ fn borrow(&self) -> &(dyn {E} + 'static) {{ self }} }}"),
    (0, "impl std::ops::Deref for T { type Target = str; fn deref(&self) -> &str { \"deref\" } }"),
    (0, "impl std::ops::Not for T { type Output = u8; fn not(self) -> u8 { 1 } }"),
    (0, "impl std::ops::Index<usize> for T { type Output = u8; fn index(&self, _: usize) -> &u8 { &1 } }"),
    (0, "impl std::fmt::LowerHex for T { fn fmt(&self, f: &mut kit::Fmt) -> kit::FmtResult { f.write_str(\"hex\") } }"),
    (0, "impl std::fmt::Pointer for T { fn fmt(&self, f: &mut kit::Fmt) -> kit::FmtResult { f.write_str(\"ptr\") } }"),
    (0, "impl std::fmt::Write for T { fn write_str(&mut self, _: &str) -> kit::FmtResult { Ok(()) } }"),
    (0, "impl Iterator for T { type Item = u8; fn next(&mut self) -> Option<u8> { None } }"),
    (0, "impl std::str::FromStr for T { type Err = u8; fn from_str(_: &str) -> Result<T, u8> { Err(1) } }"),
    (0, "impl std::process::Termination for T { fn report(self) -> std::process::ExitCode { std::process::ExitCode::FAILURE } }"),
    (0, "impl std::future::Future for T { type Output = u8; fn poll(self: std::pin::Pin<&mut Self>, _: &mut std::task::Context) -> std::task::Poll<u8> { std::task::Poll::Pending } }"),
    (1, "impl Unpin for T {}"),
    (0, "pub trait Mine {} impl<X: std::fmt::Display> Mine for X {}"),
    (0, f"pub trait Mine {{}} impl<X: {E}> Mine for X {{}}"),
    (0, "pub trait Mine { fn mine(&self) -> u8; } impl Mine for T { fn mine(&self) -> u8 { 1 } }"),
    (0, "pub type Result<X, Y = T> = std::result::Result<X, Y>; pub fn usual() -> Result<u8> { Ok(1) }"),
]  # fmt: skip
#: Methods of the type itself, called as v.name() or T::name(..): they go before those of any trait.
INHERENT = ["source", "fmt", "to_string", "provide", "description", "cause", "as_dyn_error", "as_display", "thiserror_provide", "type_id", "from", "backtrace", "try_from"]


@st.composite
def cases(draw):
    c = full.container(draw, args=chance(draw, 1, 3), rich=False)
    c["silent"] = False
    if chance(draw, 1, 5) and not any(v["msg"]["kind"] == "transparent" for v in c["variants"]):
        # No message: Display is the business of the user.
        c["silent"] = True
    elif c["kind"] == "enum" and chance(draw, 1, 25):
        c["variants"], c["params"] = [], []
    n = pick(draw, [0, 1, 2, 3, 5])
    c["beside"] = sorted({num(draw, 0, len(BESIDE) - 1) for _ in range(n)})
    if c["params"]:
        c["beside"] = [b for b in c["beside"] if not BESIDE[b][0]]
    mine = [b for b in c["beside"] if "trait Mine" in BESIDE[b][1]]
    c["beside"] = [b for b in c["beside"] if b not in mine[1:]]
    c["inherent"] = gen.names(draw, num(draw, 1, 5), INHERENT) if chance(draw, 1, 2) else []
    return c


def module(c, mode):
    d = full.decl(c, mode, attr=(lambda v: "") if c["silent"] else full.attr)
    out = ["use kit::{raw, MSG, W9};", d]
    if c["variants"]:
        o = full.oracle(c, mode)
        if c["silent"] and mode == "derive":
            o += "\nimpl std::fmt::Display for T { fn fmt(&self, f: &mut kit::Fmt) -> kit::FmtResult { want(self, f) } }"
        out.append(o)
    elif mode != "derive":
        out.append("impl std::fmt::Display for T { fn fmt(&self, f: &mut kit::Fmt) -> kit::FmtResult { match *self {} } }")
        out.append(f"impl {E} for T {{}}")
    for b in c["beside"]:
        out.append(BESIDE[b][1])
    if c["inherent"]:
        out.append("impl T {")
        for n in c["inherent"]:
            out.append(f"    pub fn {n}({'_: u8' if n in ('from', 'try_from') else '&self'}) -> u32 {{ {len(n)} }}")
        out.append("}")
    return "\n".join(out)


class C21(engine.Prop):
    id = "C21"
    title = "The derive adds Error, Display and From impls and nothing else"
    rule = "the type has a conversion, parameters, no message, other impls beside the derive, or methods of its own"
    per_worker = {"quick": 110, "thorough": 300}
    rounds = {"quick": 2, "thorough": 10}
    max_discarded = 0.1

    def configs(self):
        return ["stable", "stable", "stable", "synfull", "older", "stable", "nightly", "newest"]

    def crate_attrs(self, cfg):
        return "#![feature(error_generic_member_access)]\n" if cfg == "nightly" else ""

    def strategy(self):
        return cases()

    def emit(self, c, mode, cfg):
        out = [f"pub mod d {{\n{module(c, mode)}\n}}", f"pub mod h {{\n{module(c, 'hand')}\n}}"]
        out.append("use kit::{raw, MSG, W9};\npub fn run(cx: &mut kit::Cx) {")
        for t in TRAITS:
            out.append(f"    cx.eq(\"{t}\", kit::impls!(d::T: {t}), kit::impls!(h::T: {t}));")
        out.append("    cx.eq(\"layout\", (std::mem::size_of::<d::T>(), std::mem::align_of::<d::T>(), std::mem::needs_drop::<d::T>(), std::mem::size_of::<Option<d::T>>()),")
        out.append("        (std::mem::size_of::<h::T>(), std::mem::align_of::<h::T>(), std::mem::needs_drop::<h::T>(), std::mem::size_of::<Option<h::T>>()));")
        for i, (v, e) in enumerate(values(c)):
            a, b = e.replace("T::", "d::T::", 1), e.replace("T::", "h::T::", 1)
            if c["kind"] == "struct":
                a, b = "d::" + e, "h::" + e
            out.append(f"    {{ let v: d::T = {a}; let w: h::T = {b};")
            out.append(f"      cx.eq(\"description {i}\", {E}::description(&v), {E}::description(&w));")
            out.append(f"      cx.eq(\"cause {i}\", {E}::cause(&v).map(|e| e.to_string()), {E}::cause(&w).map(|e| e.to_string()));")
            out.append(f"      cx.eq(\"as an object {i}\", (&v as &(dyn {E} + 'static)).is::<d::T>(), true);")
            for n in c["inherent"]:
                call = f"d::T::{n}(1)" if n in ("from", "try_from") else f"v.{n}()"
                out.append(f"      {{ let n: u32 = {call}; cx.eq(\"{n} of the type itself {i}\", n, {len(n)}); }}")
            out.append("    }")
        out.append("}")
        return "\n".join(out)

    def verdicts(self, cases, cfg, mode="derive"):
        out = Batch(self, cfg, mode).run(cases)
        fine = [i for i, r in enumerate(out) if isinstance(r, Ok)]
        docs = self.documented([cases[i] for i in fine], cfg, mode)
        for i, bad in zip(fine, docs):
            if bad:
                out[i] = Fail("documented", bad)
        return out

    def documented(self, cases, cfg, mode):
        """For each case: how the documentation of the derived module differs from that of its twin, or None."""
        if not cases:
            return []
        batch = Batch(self, cfg, mode)
        src, _ = batch.source(list(enumerate(cases)))
        built = batch.built
        rustdoc = os.path.join(os.path.dirname(built.rustc), "rustdoc")
        with Work() as wd:
            path = os.path.join(wd, "case.rs")
            with open(path, "w", encoding="utf-8") as f:
                f.write(src)
            cmd = [rustdoc, path, "--crate-name", "case", "--crate-type", "lib", "--edition=" + self.edition(cfg), "-o", wd,
                   "--output-format", "json", "-Zunstable-options", "--document-private-items", "--document-hidden-items",
                   "--cap-lints", "allow", *doc_args(built.rustc_args())]  # fmt: skip
            rc, o, e = engine.run_cmd(cmd, None, env=build.base_env({**built.env, "RUSTC_BOOTSTRAP": "1"}), cwd=wd)
            if rc:
                raise HarnessError("rustdoc failed:\n" + e[-3000:])
            with open(os.path.join(wd, "case.json"), encoding="utf-8") as f:
                doc = json.load(f)
        index = doc["index"]
        got = collections.defaultdict(lambda: (collections.Counter(), collections.Counter()))

        def walk(k, at):
            it = index.get(str(k))
            if it is None or it["crate_id"] != 0:
                return
            kind, body = next(iter(it["inner"].items()))
            if kind == "module":
                for x in body["items"]:
                    walk(x, (*at, it["name"]))
                return
            if len(at) >= 3 and at[2] in ("d", "h") and kind != "impl":
                name = it["name"] if kind != "use" else "use"
                got[at[1:3]][0][f"{kind} {name}" + ("" if len(at) == 3 else " in " + "::".join(at[3:]))] += 1

        walk(doc["root"], ())
        lines = span_of_modules(src)
        for k, it in index.items():
            if it["crate_id"] != 0 or "impl" not in it["inner"]:
                continue
            im = it["inner"]["impl"]
            if im.get("blanket_impl") or im.get("is_synthetic") or not it.get("span"):
                continue
            line = it["span"]["begin"][0]
            at = next((m for m, (a, z) in lines.items() if a <= line <= z), None)
            if at is None:
                continue
            if im["trait"]:
                t = im["trait"]
                what = ("!" if im.get("is_negative") else "") + text(t.get("path") or t.get("name"), index) + text(t.get("args"), index)
            else:
                names = sorted(str(index[str(x)]["name"]) for x in im["items"] if str(x) in index)
                what = "methods " + " ".join(names)
            got[at][1][f"impl {what} for {text(head(im['for']), index)}"] += 1
        out = []
        for i in range(len(cases)):
            d, h = got[(f"c{i}", "d")], got[(f"c{i}", "h")]
            if not h[0] or not h[1]:
                raise HarnessError("the documentation is not understood")
            bad = []
            for k, name in ((0, "item"), (1, "impl")):
                more, less = d[k] - h[k], h[k] - d[k]
                bad += [f"{name} that is not in the handwritten program: {x}" for x in more] + [f"{name} only in the handwritten program: {x}" for x in less]
            out.append(" || ".join(bad) or None)
        return out

    def nontrivial(self, c):
        return bool(c["params"] or c["silent"] or c["beside"] or c["inherent"] or any(sources.is_from(f) for v in c["variants"] for f in v["fields"]))

    def labels(self, c):
        out = full.labels(c)
        if c["silent"]:
            out.append("no message")
        out += ["beside: " + BESIDE[b][1].split("{")[0].strip()[:50] for b in c["beside"]]
        out += ["method " + n for n in c["inherent"]]
        if not c["variants"]:
            out.append("empty enum")
        return sorted(set(out))


def values(c):
    from .. import defs

    seen, out = set(), []
    for v, e in defs.values(c):
        if v["name"] not in seen:
            seen.add(v["name"])
            out.append((v, e))
    return out


def doc_args(args):
    """The arguments of rustc that rustdoc has, too."""
    out, it = [], iter(args)
    for a in it:
        if a in ("-L", "--extern", "--cfg", "-Z", "--sysroot"):
            out += [a, next(it)]
        elif a.startswith(("-L", "--extern", "--cfg", "--sysroot")):
            out.append(a)
    return out


def span_of_modules(src):
    out, case, cur = {}, None, None
    for n, line in enumerate(src.split("\n"), 1):
        if line.startswith("pub mod c") and line.endswith(" {"):
            case = line[8:-2]
        elif line in ("pub mod d {", "pub mod h {"):
            cur = (case, line[8])
            out[cur] = (n, n)
        if line.startswith("pub fn run(cx"):
            cur = None
        if cur:
            out[cur] = (out[cur][0], n)
    return out


def head(ty):
    """The type that an impl is for, without its arguments."""
    k, b = next(iter(ty.items())) if isinstance(ty, dict) else (ty, None)
    if k == "resolved_path":
        return {"resolved_path": {**b, "args": None}}
    return ty


def text(x, index):
    """JSON without what is particular to one place: numbers of items, and the modules d and h."""
    if isinstance(x, dict):
        return "{" + ",".join(f"{k}:{text(v, index)}" for k, v in sorted(x.items()) if k != "id" and v not in (None, [])) + "}"
    if isinstance(x, list):
        return "[" + ",".join(text(v, index) for v in x) + "]"
    if isinstance(x, str):
        return x.split("::")[-1]
    return "" if x is None else str(x)


PROP = C21()
