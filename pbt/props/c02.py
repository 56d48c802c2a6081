import re

from hypothesis import strategies as st

from .. import engine, gen
from ..engine import Batch, Fail, Ok
from ..gen import chance, num, pick, rust_str

NAMES = ["a", "b", "ab", "x", "größe", "_y", "p", "e", "A"]
OTHER = ["W9", "MSG", "zz", "a1", "_", "9a", "a.b", "é", "a b", "a-b", "r#a", "r#b", "\U0001f980", "a\u0301", "Self"]
JUNK = ["{", "}", "{{", "}}", ":", "?", "#", "<", ">", "^", "*", "$", ".", "0", "1", "+", "-", " ", "a", "x", "p",
        "\n", "é", "\U0001f980", "r#", "_", "W9$", "::", "=", "\t", "\u2003", "'", "\""]  # fmt: skip
IMPLICIT = re.compile(r"\{\s*[:}]")
TYS = ["", "", "?", "#?", "x?", "X?", "x", "X", "o", "b", "e", "E", "p", "#x", "#X", "#o", "#b", "#p"]


def placeholder(draw, names, tuple_):
    if chance(draw, 1, 10):
        name = pick(draw, [n for n in OTHER])
    elif tuple_ and chance(draw, 1, 10):
        name = pick(draw, ["00", "01", "2", "9", "4294967296", "a", "0x", "1_0"])
    else:
        name = pick(draw, names)
    s = ""
    if chance(draw, 2, 3):
        s = ":"
        if chance(draw, 1, 2):
            if chance(draw, 2, 3):
                s += pick(draw, ["*", "0", " ", "}", "{", "x", "?", "é", "\U0001f980", "<", "\n", "\"", ".", "$", "p", "1"])
            s += pick(draw, "<>^")
        if chance(draw, 1, 5):
            s += pick(draw, "+-")
        ty = pick(draw, TYS)
        if ty.startswith("#"):
            s += "#"
        if chance(draw, 1, 5):
            s += "0"
        if chance(draw, 1, 3):
            s += pick(draw, ["1", "7", "30", "W9$", "007"])
        if chance(draw, 1, 4):
            s += "." + pick(draw, ["0", "3", "W9$", "08"])
        s += ty.lstrip("#")
    if chance(draw, 1, 5):
        s += pick(draw, [" ", "  ", "\n", "\t", "\u2003", "\u00a0"])
    if chance(draw, 1, 8):  # break it
        k = num(draw, 0, len(s))
        s = s[:k] + pick(draw, JUNK) + s[k:]
    if chance(draw, 1, 25):
        name = " " + name
    return "{" + name + s + ("" if chance(draw, 1, 25) else "}")


def case(draw):
    tuple_ = chance(draw, 1, 3)
    n = num(draw, 1, 4)
    fields = [str(i) for i in range(n)] if tuple_ else [NAMES[i] for i in sorted(set(
        num(draw, 0, len(NAMES) - 1) for _ in range(n)))]  # fmt: skip
    out = []
    for _ in range(pick(draw, [1, 1, 2, 2, 3, 4, 5])):
        k = num(draw, 0, 9)
        if k == 0:
            out.append(pick(draw, JUNK))
        elif k <= 2:
            out.append(pick(draw, ["lit", " ", "{{", "}}", "{{}}", "{{a}}", "x=", "{{{{", "é", "\n", "=>", "}}}}"]))
        else:
            out.append(placeholder(draw, fields, tuple_))
    fmt = "".join(out)
    if tuple_ and (IMPLICIT.search(fmt.replace("{{", "")) or ".*" in fmt):
        # {} takes the next explicit argument, of which there are none: unlike in the oracle.
        fmt = fmt.replace("{", "{{").replace("}", "}}")
    return {"tuple": tuple_, "fields": fields, "fmt": fmt, "style": gen.string_style(draw)}


class C02(engine.Prop):
    id = "C02"
    title = "The derive accepts exactly the format strings rustc's own format_args! accepts, with the same output"
    rule = "rustc accepts the string and it has a placeholder with a spec, an escape or trailing whitespace; or rustc rejects it"
    per_worker = {"quick": 700, "thorough": 1500}
    rounds = {"quick": 3, "thorough": 14}
    has_control = False

    def strategy(self):
        return st.composite(case)()

    def nontrivial(self, c):
        return ":" in c["fmt"] or "{{" in c["fmt"] or "}}" in c["fmt"] or c.get("rejected", False)

    def labels(self, c):
        return ["tuple" if c["tuple"] else "named", "literal " + c["style"][0]]

    def emit(self, c, mode, cfg):
        fmt = c["fmt"]
        decl = (
            "(" + ", ".join("pub AllFmt" for _ in c["fields"]) + ");" if c["tuple"]
            else " { " + ", ".join(f"pub {n}: AllFmt" for n in c["fields"]) + " }"
        )  # fmt: skip
        val = "T { " + ", ".join(f"{n}: AllFmt({i + 1})" for i, n in enumerate(c["fields"])) + " }"
        if c["tuple"]:
            # Every positional argument must be used: mention all of them at the end, in both.
            fmt += "|" + "".join("{%s}" % n for n in c["fields"])
            args = "".join(f", AllFmt({i + 1})" for i in range(len(c["fields"])))
            lets = ""
        else:
            args = ""
            lets = "".join(f"let {n} = AllFmt({i + 1}); " for i, n in enumerate(c["fields"]))
        out = ["use kit::{raw, AllFmt, MSG, W9};"]
        if mode != "oracle":
            out.append(
                f"#[derive(Debug, thiserror::Error)]\n#[error({gen.styled_str(fmt, c['style'])})]\npub struct T{decl}"
            )
        if mode == "only":
            out.append("pub fn run(cx: &mut kit::Cx) {}")
        else:
            out.append("pub fn run(cx: &mut kit::Cx) {")
            out.append(f"    {lets}let want = format!({rust_str(fmt)}{args});")
            if mode != "oracle":
                out.append(f'    cx.eq("text", {val}.to_string(), want);')
            out.append("}")
        return "\n".join(out)

    def verdicts(self, cases, cfg, mode="derive"):
        res = {}
        oracle = Batch(self, cfg, "oracle").run(cases)
        good = [i for i, v in enumerate(oracle) if isinstance(v, Ok)]
        bad = [i for i, v in enumerate(oracle) if not isinstance(v, Ok)]
        for i in bad:
            if oracle[i].kind != "does not compile":
                raise engine.HarnessError(f"the oracle program misbehaves: {oracle[i].detail}")
        for i, v in zip(good, Batch(self, cfg, "derive").run([cases[i] for i in good])):
            res[i] = v
        for i, v in zip(bad, Batch(self, cfg, "only").run([cases[i] for i in bad])):
            if isinstance(v, Ok):
                res[i] = Fail("accepted", "the derive accepts a format string that rustc rejects: " + oracle[i].detail[:800])
            else:
                cases[i]["rejected"] = True
                res[i] = Ok(1)
        return [res[i] for i in range(len(cases))]


PROP = C02()
