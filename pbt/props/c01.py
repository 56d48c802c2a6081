from hypothesis import strategies as st

from .. import defs, engine


class C01(engine.Prop):
    id = "C01"
    title = "Format-string shorthand prints exactly what the equivalent handwritten write! prints"
    rule = (
        "the message has at least two placeholders that refer to fields, or one with a format spec "
        "other than {} (trait letter, fill, width, precision, flags)"
    )
    per_worker = {"quick": 600, "thorough": 1000}
    rounds = {"quick": 3, "thorough": 14}

    def configs(self):
        return ["stable", "stable", "stable", "synfull"]

    def strategy(self):
        return st.composite(lambda draw: defs.dress(draw, defs.container(draw, rich=False)))()

    def emit(self, case, mode, cfg):
        return defs.program(case, mode)

    def labels(self, case):
        return defs.msg_labels(case)

    def nontrivial(self, case):
        refs = [s for _, s in defs.segs(case) if s.get("arg", [0])[0] == "field"]
        return len(refs) >= 2 or any(set(s["spec"]) - {"ty"} or s["spec"]["ty"] for s in refs)


PROP = C01()
