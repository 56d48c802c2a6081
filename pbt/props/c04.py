from hypothesis import strategies as st

from .. import defs, engine, gen
from ..gen import chance, num, pick
from .c05 import PATHS, fn_of

# Types whose Display/Debug shows the formatter state, fails, or logs, with a few plain ones.
CLS = "allfmt tracer fail touchy string str int float dd char dyn box vec opt err".split()
TYPES = [t for t in gen.TYPES if t[3] in CLS]
TYPES += [t for t in TYPES if t[3] in ("fail", "tracer", "allfmt")] * 3


def one(draw, name):
    if chance(draw, 1, 3):
        return defs.transparent_variant(draw, name)
    if name and chance(draw, 1, 6):
        shape, fields = gen.shape_fields(draw, TYPES, 3)
        fields = [f for f in fields if f["cls"] not in ("touchy", "fail")]
        return {"name": name, "shape": shape if fields else "unit", "fields": fields, "msg": {"kind": "fmt", "form": pick(draw, PATHS)}}
    if chance(draw, 1, 6):  # no placeholder at all: the fast path
        v = defs.variant(draw, name, types=TYPES, segs_hi=0, args=False)
        v["msg"]["segs"] = [{"lit": gen.literal(draw, 0, 6)}]
        return v
    return defs.variant(draw, name, types=TYPES, segs_hi=6, hide=("touchy",), rich=chance(draw, 1, 4))


def case(draw):
    if chance(draw, 1, 2):
        c = {"kind": "enum", "variants": [one(draw, n) for n in gen.names(draw, num(draw, 1, 3), defs.VNAMES)]}
    else:
        c = {"kind": "struct", "variants": [one(draw, None)]}
    return defs.dress(draw, c)


class C04(engine.Prop):
    id = "C04"
    title = "Formatting faults and outer formatters are handled like a handwritten write! (or, if transparent, forwarded)"
    rule = "the message consists of at least two pieces, or is transparent"
    per_worker = {"quick": 450, "thorough": 1500}
    rounds = {"quick": 3, "thorough": 14}

    def strategy(self):
        return st.composite(case)()

    def emit(self, c, mode, cfg):
        fns = {v["name"]: fn_of(f"f{i}", v["msg"]["form"], v["fields"]) for i, v in enumerate(c["variants"]) if v["msg"]["kind"] == "fmt"}

        def attr(v):
            if v["name"] in fns:
                return f"#[error(fmt = {fns[v['name']][0].replace('super::{M}', 'self')})]"
            return defs.attr(v)

        def body(v):
            if v["name"] in fns:
                return f"            {fns[v['name']][2]}({''.join(f'r{j}, ' for j in range(len(v['fields'])))}f)"
            return defs.body(v)

        out = defs.program(c, mode, checks=("show", "faults"), attr=attr, body=body)
        return "\n".join([out, *(f[1] for f in fns.values())])

    def nontrivial(self, c):
        return any(v["msg"]["kind"] != "msg" or len(v["msg"]["segs"]) >= 2 for v in c["variants"])

    def labels(self, c):
        out = set()
        for v in c["variants"]:
            k = v["msg"]["kind"]
            out.add(k)
            if k == "msg":
                out.update(x for x in defs.msg_labels({"kind": c["kind"], "variants": [v]}) if x.startswith(("arg", "field")))
                if not any("arg" in s for s in v["msg"]["segs"]):
                    out.add("plain text" + (" with braces" if any(b in s["lit"] for s in v["msg"]["segs"] for b in "{}") else ""))
                hit = {s["arg"][1] for s in v["msg"]["segs"] if s.get("arg", [0])[0] == "field"}
                if any(v["fields"][i]["cls"] == "fail" for i in hit):
                    out.add("a field's Display fails")
                if len(hit) < len(v["fields"]):
                    out.add("has unmentioned fields")
            elif k == "transparent":
                out.add("transparent over " + v["fields"][0]["ty"])
        return sorted(out | defs.dress_labels(c))


PROP = C04()
