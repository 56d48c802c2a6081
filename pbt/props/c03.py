from hypothesis import strategies as st

from .. import defs, engine, gen

CLS = "i64 usize bool string str vec opt tup allfmt pair nest wide wide limits err tracer touchy".split()
TYPES = [t for t in gen.TYPES if t[3] in CLS] + 3 * [t for t in gen.TYPES if t[3] in ("i64", "pair", "nest", "limits", "tup", "wide", "opt")]


def walk(case):
    for v in case["variants"]:
        for a in v["msg"]["pos"] + v["msg"]["named"]:
            yield v, a


class C03(engine.Prop):
    id = "C03"
    title = "Extra format arguments: .field shorthand inside arbitrary expressions, evaluated like write! arguments"
    rule = "some argument expression refers to a field with the .field shorthand and has at least three tokens"
    per_worker = {"quick": 420, "thorough": 1500}
    rounds = {"quick": 3, "thorough": 14}

    def configs(self):
        return ["stable", "synfull"]

    def strategy(self):
        return st.composite(lambda draw: defs.dress(draw, defs.container(draw, max_variants=2, rich=True, types=TYPES, segs_hi=3)))()

    def emit(self, case, mode, cfg):
        return defs.program(case, mode)

    def nontrivial(self, case):
        return any(len(a["e"]) >= 3 and any(isinstance(t, dict) for t in a["e"]) for _, a in walk(case))

    def labels(self, case):
        out = set(defs.msg_labels(case))
        for _, a in walk(case):
            text = gen.expr_text(a["e"], lambda i: ".f")
            for k in ("if ", "match ", "let ", "|", "::<", "break", "unsafe", "loop", "return", "struct", "as &dyn", "kit::ev", "matches!", "?", "..", "vec!"):  # fmt: skip
                if k in text:
                    out.add("expr has " + k.strip())
            if text.startswith("."):
                out.add("expr starts with a field")
            if any(isinstance(t, dict) for t in a["e"]):
                out.add("expr refers to a field")
            else:
                out.add("expr refers to no field")
        return sorted(x for x in out if not x.startswith(("trait", "spec", "field class")))


PROP = C03()
