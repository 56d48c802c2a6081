from hypothesis import strategies as st

from .. import defs, engine, gen
from ..gen import chance, num, pick

# @ stands for a byte string literal.
PATHS = [
    ("std::path::PathBuf", ["kit::path(@)"]),
    ("Box<std::path::Path>", ["kit::path(@).into_boxed_path()"]),
    ("&'static std::path::Path", ["kit::path_ref(@)"]),
    ("&'static &'static std::path::Path", ["kit::leak(kit::path_ref(@))"]),
    ("&'static mut std::path::Path", ["Box::leak(kit::path(@).into_boxed_path())"]),
    ("&'static std::path::PathBuf", ["kit::leak(kit::path(@))"]),
    ("&'static mut std::path::PathBuf", ["kit::leak(kit::path(@))"]),
    ("&'static &'static mut std::path::PathBuf", ["kit::leak(kit::leak(kit::path(@)))"]),
    ("std::rc::Rc<std::path::Path>", ["std::rc::Rc::from(kit::path(@))"]),
    ("std::sync::Arc<std::path::Path>", ["std::sync::Arc::from(kit::path(@))"]),
    ("std::sync::Arc<std::path::PathBuf>", ["std::sync::Arc::new(kit::path(@))"]),
    ("std::borrow::Cow<'static, std::path::Path>",
     ["std::borrow::Cow::Borrowed(kit::path_ref(@))", "std::borrow::Cow::Owned(kit::path(@))"]),
    ("Box<std::path::PathBuf>", ["Box::new(kit::path(@))"]),
    ("Box<Box<std::path::Path>>", ["Box::new(kit::path(@).into_boxed_path())"]),
    ("Box<std::borrow::Cow<'static, std::path::Path>>", ["Box::new(std::borrow::Cow::Owned(kit::path(@)))"]),
    ("std::rc::Rc<Box<&'static std::path::Path>>", ["std::rc::Rc::new(Box::new(kit::path_ref(@)))"]),
    ("std::mem::ManuallyDrop<std::path::PathBuf>", ["std::mem::ManuallyDrop::new(kit::path(@))"]),
    ("std::pin::Pin<Box<std::path::PathBuf>>", ["Box::pin(kit::path(@))"]),
    ("std::panic::AssertUnwindSafe<std::path::PathBuf>", ["std::panic::AssertUnwindSafe(kit::path(@))"]),
    ("kit::ToPath", ["kit::ToPath(@)"]),
    ("kit::ToPathBuf", ["kit::ToPathBuf(kit::path(@))"]),
    ("Box<kit::ToPath>", ["Box::new(kit::ToPath(@))"]),
    ("&'static kit::ToPathBuf", ["kit::leak(kit::ToPathBuf(kit::path(@)))"]),
]  # fmt: skip
POINTERS = ("&", "Box<", "std::rc::Rc<", "std::sync::Arc<", "std::pin::Pin<")
# Types with a Display of their own.
SHOWN = [
    ("kit::ShownPath", ["kit::ShownPath(kit::path(@))"]),
    ("Box<kit::ShownPath>", ["Box::new(kit::ShownPath(kit::path(@)))"]),
    ("&'static kit::ShownPath", ["kit::leak(kit::ShownPath(kit::path(@)))"]),
    ("std::sync::Arc<Box<kit::ShownPath>>", ["std::sync::Arc::new(Box::new(kit::ShownPath(kit::path(@))))"]),
    ("kit::NamedPath", ["kit::NamedPath(kit::path(@))"]),
    ("std::path::Display<'static>", ["kit::path_ref(@).display()"]),
    ("Box<std::path::Display<'static>>", ["Box::new(kit::path_ref(@).display())"]),
    ("Box<str>", ['Box::from("text")']),
    ("&'static &'static str", ['&"text"']),
    ("std::rc::Rc<Box<str>>", ['std::rc::Rc::new(Box::from("rcbox"))']),
    ("Box<dyn std::fmt::Display>", []),
    ("Box<dyn kit::Show>", ["Box::new(kit::AllFmt(1))", "Box::new(kit::NamedPath(kit::path(@)))"]),
    ("&'static dyn kit::Show", ["kit::leak(kit::AllFmt(1))"]),
    ("&'static mut kit::AllFmt", ["kit::leak(kit::AllFmt(2))"]),
    ("std::pin::Pin<Box<kit::AllFmt>>", ["Box::pin(kit::AllFmt(2))"]),
    ("kit::AllFmt", ["kit::AllFmt(3)"]),
    ("String", ['String::from("s")']),
    ("i32", ["-4"]),
    ("std::borrow::Cow<'static, str>", ['std::borrow::Cow::Borrowed("cow")']),
    ("Box<dyn std::error::Error>", ["Box::new(kit::Leaf(1))"]),
    ("kit::anyhow::Error", ["kit::anyhow::Error::new(kit::Node(1, kit::Leaf(2)))"]),
]  # fmt: skip
SHOWN = [s for s in SHOWN if s[1]]
# Neither.
DEBUG = [("std::ffi::OsString", ['std::ffi::OsString::from("os")']), ("Option<std::path::PathBuf>", ["Some(kit::path(@))", "None"])]


def is_ptr(t):
    return t.startswith(POINTERS) and t not in ("&'static kit::ToPathBuf",) or t.startswith("&")


TYPES = []
for t, v in PATHS:
    TYPES.append((t, "P?" + ("p" if is_ptr(t) else ""), v, "path"))
for t, v in SHOWN:
    dbg = "" if "anyhow" in t else "?"
    TYPES.append((t, "D" + dbg + ("p" if is_ptr(t) else ""), v, "path"))
for t, v in DEBUG:
    TYPES.append((t, "?", v, "path"))
WEIGHTED = TYPES + [t for t in TYPES if "P" in t[1]]

BYTES = [
    b"/", b"a", b"b c", b".", b"..", b"\xff", b"\xfe\x80", b"\xc3", b"\xc3\xa9", b"\xe2\x82", b"\xe2\x82\xac", b"\xf0\x9f\xa6\x80", b"\xf0\x9f\xa6",
    b"\xed\xa0\x80", b"\xc0\xaf", b"\xef\xbf\xbd", b"{", b"}", b"{}", b"{x}", b"{{", b"%s", b"\n", b"\t", b"\x00", b"\x7f", b"\x1b[0m", b'"', b"\\",
    b"\xf4\x90\x80\x80", b"\xe2\x80\xae", b"//", b"long-component-" * 3,
]  # fmt: skip


def byte_str(draw):
    bs = b"".join(pick(draw, BYTES) for _ in range(num(draw, 0, 5)))
    return 'b"' + "".join("\\x%02x" % b for b in bs) + '"'


def fill(draw, fields):
    for f in fields:
        f["vals"] = [v.replace("@", byte_str(draw)) for v in f["vals"]]


def unsized(draw):
    if chance(draw, 1, 2):
        tail, vals, caps = pick(draw, [
            ("std::path::Path", ["kit::path_ref(@)"], "P?"),
            ("std::path::Path", ["kit::path_ref(@)"], "P?"),
            ("str", ['"sliver"', '""', '"{é}"'], "D?"),
            ("[u8]", ["&[1, 2]"], "?"),
            ("dyn kit::Show", ["&kit::AllFmt(1)", "&kit::DebugDisplay(2)"], "D?"),
            ("dyn std::error::Error", ["&kit::Node(1, kit::Leaf(2))"], "D?"),
            ("std::ffi::OsStr", ['std::ffi::OsStr::new("os")'], "?"),
        ])  # fmt: skip
        f = {"ty": tail, "caps": caps, "cls": "path", "vals": [pick(draw, vals) for _ in range(2)], "attrs": [], "name": None, "unsized": 1}
        fields = [f]
        kind = "cast"
        pre = ""
    else:
        tail, vals, caps = pick(draw, [
            ("[u8]", [["[u8; 3]", "[1, 2, 3]"], ["[u8; 0]", "[]"]], "?"),
            ("dyn kit::Show", [["kit::AllFmt", "kit::AllFmt(5)"], ["i32", "7"], ["String", 'String::from("st")'], ["kit::NamedPath", "kit::NamedPath(kit::path(@))"]], "D?"),
            ("dyn std::error::Error", [["kit::Leaf", "kit::Leaf(3)"], ["kit::Node", "kit::Node(3, kit::Leaf(4))"]], "D?"),
        ])  # fmt: skip
        n = num(draw, 0, 2)
        fields = [gen.field(draw, WEIGHTED) for _ in range(n)]
        v = [pick(draw, vals) for _ in range(2)]
        fields.append({"ty": "X", "caps": caps, "cls": "path", "vals": [b for _, b in v], "conc": [a for a, _ in v], "attrs": [], "name": None, "unsized": 1})
        kind = "coerce"
        pre = tail
    shape = pick(draw, ["named", "tuple"])
    if shape == "named":
        for f, nm in zip(fields, gen.names(draw, len(fields))):
            f["name"] = nm
    fill(draw, fields)
    m = gen.message(draw, shape, fields, args=False, selfdebug=kind == "cast")
    if not any(s.get("arg") == ["field", len(fields) - 1] for s in m["segs"]):
        m["segs"].append({"arg": ["field", len(fields) - 1], "spec": {"ty": "" if caps[0] in "PD" else "?"}})
    return {"kind": kind, "tail": pre, "variants": [{"name": None, "shape": shape, "fields": fields, "msg": m}]}


@st.composite
def cases(draw):
    if chance(draw, 1, 3):
        return unsized(draw)
    c = defs.container(draw, types=WEIGHTED, args=False, max_fields=4, shapes=("named", "tuple"))
    for v in c["variants"]:
        fill(draw, v["fields"])
    return c


class C13(engine.Prop):
    id = "C13"
    title = "Paths print as by display() and everything else by its own Display, sized or not"
    rule = "a message mentions a path, a pointer to one, or an unsized field"
    per_worker = {"quick": 900, "thorough": 1500}
    rounds = {"quick": 3, "thorough": 14}

    def configs(self):
        return ["stable", "stable", "stable", "synfull"]

    def strategy(self):
        return cases()

    def emit(self, c, mode, cfg):
        if c["kind"] in ("struct", "enum"):
            return defs.program(c, mode, checks=("show", "faults"))
        v = c["variants"][0]
        derive = "#[derive(Debug, thiserror::Error)]\n" + defs.attr(v) if mode == "derive" else "#[derive(Debug)]"
        end = "" if v["shape"] == "named" else ";"
        cast = c["kind"] == "cast"
        g, b, a = ("", "", "") if cast else ("<X: ?Sized>", "<X: ?Sized + std::fmt::Debug + %s>", "<X>")
        caps = v["fields"][-1]["caps"]
        b = b and b % ("std::fmt::Display" if "D" in caps else "std::fmt::Debug")
        out = ["use kit::{raw, MSG, W9};"]
        rep = "#[repr(transparent)]\n" if cast else ""
        out.append(f"{rep}{derive}\npub struct T{g}{gen.fields_decl(v['shape'], v['fields'], True)}{end}")
        out.append(f"fn want{b}(v: &T{a}, f: &mut kit::Fmt) -> kit::FmtResult {{ match v {{ {gen.pattern('T', v['fields'])} => {{\n{defs.body(v)}\n}} }} }}")
        if mode == "hand":
            out.append(f"impl{b} std::fmt::Display for T{a} {{ fn fmt(&self, f: &mut kit::Fmt) -> kit::FmtResult {{ want(self, f) }} }}")
            out.append(f"impl{b} std::error::Error for T{a} {{}}")
        out.append("fn is_error<E: ?Sized + std::error::Error>(_: &E) {}")
        out.append("pub fn run(cx: &mut kit::Cx) {")
        for i in range(2):
            if cast:
                out.append(f"    {{ let p: &{c['variants'][0]['fields'][0]['ty']} = {v['fields'][0]['vals'][i]};")
                out.append(f"      let v: &T = unsafe {{ &*(p as *const {v['fields'][0]['ty']} as *const T) }};")
            else:
                f = v["fields"][-1]
                out.append(f"    {{ let s: T<{f['conc'][i]}> = {gen.construct('T', v['fields'], i)}; let v: &T<{c['tail']}> = &s;")
            out.append("      is_error(v); let w = kit::RefFmt(|f: &mut kit::Fmt| want(v, f));")
            out.append(f'      cx.show("value {i}", &v, &w); cx.faults("value {i}", &v, &w); }}')
        out.append("}")
        return "\n".join(out)

    def nontrivial(self, c):
        if c["kind"] in ("cast", "coerce"):
            return True
        return any(
            s.get("arg", [0])[0] == "field" and "P" in v["fields"][s["arg"][1]]["caps"] and s["spec"]["ty"] == "" for v, s in defs.segs(c)
        )

    def labels(self, c):
        out = {c["kind"]}
        for v, s in defs.segs(c):
            if s.get("arg", [0])[0] == "field":
                f = v["fields"][s["arg"][1]]
                out.add("trait " + (s["spec"]["ty"] or "Display"))
                if "P" in f["caps"] and s["spec"]["ty"] == "":
                    out.add("displayed: " + f["ty"].replace("std::path::", ""))
        return sorted(out)


PROP = C13()
