"""The text of the expansion: repeated, in other processes, in other orders, and of renamed definitions."""

import collections
import copy
import random
import re

from hypothesis import strategies as st

from .. import build, defs, engine, full, gen
from ..engine import Fail, HarnessError, Ok
from ..gen import chance, num, pick
from . import c09, c10

COPIES = 3
#: Names that mean something.
SPECIAL = {"source", "backtrace"}
FNAMES = [n for n in gen.NAMES if not n.startswith("r#")] + [
    "zz", "aa", "m", "len", "e", "t", "self_value", "path", "io", "inner", "cause", "list", "list2", "field_1", "fields", "var", "v0", "string",
    "display_", "debug", "as_display", "as_dyn_error", "provide", "req", "Some_", "formatters", "transparent_", "only_field", "arg", "args0",
    "a_name_that_is_longer_than_most_names_are_by_far", "z" * 90, "é", "_x9", "X",
]  # fmt: skip
VNAMES = ["A", "Z", "Io", "Error_", "Display", "Source", "Transparent", "Variant", "lower", "Variants", "Foo2", "X1", "Backtrace", "Option", "From", "V" * 60, "X"]
PARAMS = ["A", "B", "Zz", "Err", "Inner", "Fmt", "W", "lower", "Src", "D", "Debug", "Write", "Arguments", "Request"]
TNAMES = ["Error_", "MyError", "E", "Ty", "Display_", "Aaa", "Zzz", "lower", "Formatter", "Var", "Path", "Backtrace", "Io", "N" * 80, "T"]


@st.composite
def cases(draw):
    k = pick(draw, ["full", "full", "full", "generic", "generic", "provide"])
    if k == "full":
        c = full.container(draw, rich=chance(draw, 1, 2))
        for v in c["variants"]:
            if v["msg"]["kind"] == "msg":
                v["msg"]["style"] = ["plain"]
    elif k == "generic":
        c = c10.case(draw)
    else:
        c = c09.case(draw)
    out = {"how": k, "c": c, "type": pick(draw, TNAMES), "vnames": [], "maps": [], "params": {}}
    if k == "generic":
        ps = [p for p in c["params"] if not p.startswith("r#")]
        out["params"] = dict(zip(ps, gen.names(draw, len(ps), PARAMS)))
    vs = gen.names(draw, len(c["variants"]), VNAMES)
    out["vnames"] = vs
    for v in c["variants"]:
        ns = list(dict.fromkeys(renamable(v)))
        out["maps"].append(dict(zip(ns, gen.names(draw, len(ns), FNAMES))))
    out["kin"] = gen.names(draw, num(draw, 1, 3), ["order", "types", "turn", "less", "params", "bare", "variants"])
    return out


def renamable(v):
    """The names of fields and arguments that are free to be anything else."""
    out = [f["name"] for f in v["fields"] if f["name"]]
    if isinstance(v["msg"] if "msg" in v else None, dict) and v["msg"]["kind"] == "msg":
        out += [a["n"] for a in v["msg"]["named"]]
    return [n for n in out if not n.startswith("r#") and n not in SPECIAL and "r#" + n not in out]


def rename(c, maps, vnames, params):
    c = copy.deepcopy(c)
    if params:
        to = lambda p: params.get(p, p)  # noqa: E731
        c["params"] = [to(p) for p in c["params"]]
        c["assoc"] = [to(p) for p in c["assoc"]]
        c["bounds"] = {to(p): b for p, b in c["bounds"].items()}
        for v in c["variants"]:
            for f in v["fields"]:
                f["p"], f["q"] = to(f["p"]), to(f["q"])
    for v, m, vn in zip(c["variants"], maps, vnames):
        if v["name"]:
            v["name"] = vn
        for f in v["fields"]:
            f["name"] = m.get(f["name"], f["name"])
        msg = v.get("msg")
        if isinstance(msg, dict) and msg["kind"] == "msg":
            for a in msg["named"]:
                a["n"] = m.get(a["n"], a["n"])
            for s in msg["segs"]:
                if "arg" not in s:
                    continue
                if s["arg"][0] == "named":
                    s["arg"] = ["named", m.get(s["arg"][1], s["arg"][1])]
                for k in ("width", "prec"):
                    if s["spec"].get(k, [""])[0] == "name":
                        s["spec"][k] = ["name", m.get(s["spec"][k][1], s["spec"][k][1])]
    return c


def text(how, c, ty):
    if how == "full":
        t = full.decl(c, "derive")
    elif how == "generic":
        c = copy.deepcopy(c)
        t = c10.PROP.decl(c, "derive")
    else:
        t = defs.decl(c, "derive", attr=lambda v: "#[error(transparent)]" if "transparent" in v["how"] else '#[error("msg")]')
    t = t.replace("derive(Debug, thiserror::Error)", "derive(thiserror::Error)").replace("#[derive(Debug)]", "")
    return re.sub(r"pub (struct|enum) T\b", r"pub \1 " + ty, t)


def canonical(x):
    """The definition with names that occur nowhere else, and what each of them stands for in the renamed one."""
    back = {}
    maps = []
    for n, m in enumerate(x["maps"]):
        k = {}
        for j, (old, new) in enumerate(m.items()):
            k[old] = f"qz{n}f{j}zq"
            back[k[old]] = new
        maps.append(k)
    vn = []
    for n, new in enumerate(x["vnames"]):
        vn.append(f"Qz{n}vzQ")
        back[vn[-1]] = new
    back["QztzQ"] = x["type"]
    ps = {}
    for n, (old, new) in enumerate(x["params"].items()):
        ps[old] = f"Qz{n}pzQ"
        back[ps[old]] = new
    return rename(x["c"], maps, vn, ps), back


def relatives(x):
    """Definitions that have much in common with this one, of which it must be independent."""
    out = []
    for how in x.get("kin", []):
        c = copy.deepcopy(x["c"])
        for v in c["variants"]:
            fs = v["fields"]
            if how == "order":
                fs.reverse()
            elif how == "types":
                names = [f.get("name") for f in fs]
                fs.reverse()
                for f, n in zip(fs, names):
                    f["name"] = n
            elif how == "turn":
                names = [f.get("name") for f in fs]
                for f, n in zip(fs, names[1:] + names[:1]):
                    f["name"] = n
            elif how == "less":
                del fs[num_less(fs) :]
            elif how == "params":
                for f in fs:
                    if "p" in f and "q" in f:
                        f["p"], f["q"] = f["q"], f["p"]
            elif how == "bare":
                for f in fs:
                    f["attrs"] = []
        if how == "variants":
            ns = [v["name"] for v in c["variants"]]
            c["variants"].reverse()
            for v, n in zip(c["variants"], ns):
                v["name"] = n
        try:
            out.append(with_messages(text(x["how"], c, "T"), text(x["how"], x["c"], "T")))
        except Exception:  # it does not fit the rest of the definition
            pass
    return out


def with_messages(t, of):
    """The text with the messages of another, if it has as many."""
    at = re.compile(r"(?m)^( *#\[error\(.*\)\])$")
    theirs = at.findall(of)
    if len(at.findall(t)) != len(theirs):
        return t
    theirs.reverse()
    return at.sub(lambda m: theirs.pop(), t)


def num_less(fs):
    return max(1, len(fs) - 1)


def sub(s, back):
    return re.sub(r"qz\d+f\d+zq|Qz\d+[vp]zQ|QztzQ", lambda m: back[m.group()], s)


def tokens(s):
    return collections.Counter(re.findall(r"\w+|[^\w\s]", s))


def lean(s):
    """Without the layout: the printer breaks lines by length."""
    return re.sub(r"\s+", " ", re.sub(r",\s*([)}\]>])", r"\1", s)).strip()


class C17(engine.Prop):
    id = "C17"
    title = "The expansion is a function of the definition alone"
    rule = "the definition has a placeholder, argument, source, conversion, generic bound or backtrace"
    per_worker = {"quick": 400, "thorough": 1000}
    rounds = {"quick": 3, "thorough": 14}
    has_control = False
    processes = 3

    def configs(self):
        return ["nightly", "bootstrap", "nightly", "synfull"]

    def strategy(self):
        return cases()

    def emit(self, x, mode, cfg):
        return text(x["how"], x["c"], "T")

    def sample(self, x, cfg):
        return self.emit(x, "derive", cfg) + "\n// renamed\n" + self.renamed(x)

    def renamed(self, x):
        return text(x["how"], rename(x["c"], x["maps"], x["vnames"], x["params"]), x["type"])

    def expand(self, built, mods):
        """mods: list of (name, text). Returns the expansion of each by name."""
        src = "#![allow(warnings)]\n" + "".join(f"pub mod {n} {{\n{t}\n}}\n" for n, t in mods)
        with engine.Work() as wd:
            path = wd + "/case.rs"
            with open(path, "w") as f:
                f.write(src)
            env = build.base_env(built.env)
            env["RUSTC_BOOTSTRAP"] = "1"
            cmd = [built.rustc, path, "--crate-name=case", "--crate-type=lib", "--edition=2021", "-Zunpretty=expanded", "--error-format=json", *built.rustc_args()]
            _, o, e = engine.run_cmd(cmd, None, env=env, cwd=wd)
        parts = re.split(r"(?m)^pub mod (m\w+) \{\n", o)
        got = dict(zip(parts[1::2], parts[2::2]))
        if set(got) != {n for n, _ in mods}:
            raise HarnessError(f"the expansion lacks {sorted({n for n, _ in mods} - set(got))[:3]}:\n{e[-3000:]}")
        return got

    def verdicts(self, cases, cfg, mode="derive"):
        built = build.build(cfg)
        plain, canon, renamed, backs = [], [], [], []
        for x in cases:
            plain.append(text(x["how"], x["c"], "T"))
            c, back = canonical(x)
            canon.append(text(x["how"], c, "QztzQ"))
            renamed.append(self.renamed(x))
            backs.append(back)
        kin = [relatives(x) for x in cases]
        rng = random.Random(len(cases))
        idx = range(len(cases))
        got = [[] for _ in cases]
        mods = []
        for k in range(COPIES):
            mods += [(f"m{i}_{k}", plain[i]) for i in idx]
        mods += [(f"m{i}_c", canon[i]) for i in idx] + [(f"m{i}_r", renamed[i]) for i in idx]
        first = self.expand(built, mods)
        for i in idx:
            got[i] = [first[f"m{i}_{k}"] for k in range(COPIES)]
        # Other processes, other neighbours, another order, another place.
        for p in range(self.processes):
            some = [i for i in idx if len(cases) == 1 or rng.random() < 0.7]
            mods = [(f"m{i}_{k}", plain[i]) for i in some for k in range(COPIES)]
            mods += [(f"mk{i}_{k}", t) for i in some for k, t in enumerate(kin[i])]
            rng.shuffle(mods)
            more = self.expand(built, mods)
            for i in some:
                got[i] += [more[f"m{i}_{k}"] for k in range(COPIES)]
        out = []
        for i in idx:
            other = next((g for g in got[i] if g.strip() != got[i][0].strip()), None)
            a, b = lean(sub(first[f"m{i}_c"], backs[i])), lean(first[f"m{i}_r"])
            if other is not None:
                out.append(Fail("not deterministic", f"one expansion:\n{got[i][0]}\nanother:\n{other}"))
            elif "impl" not in first[f"m{i}_c"]:
                out.append(Fail("no expansion", first[f"m{i}_c"]))
            elif tokens(a) != tokens(b):
                x, y = tokens(a), tokens(b)
                out.append(Fail("renaming", f"tokens missing after renaming: {dict(x - y)}, added: {dict(y - x)}; expected\n{a}\ngot\n{b}"))
            else:
                out.append(Ok(len(got[i])))
        return out

    def nontrivial(self, x):
        if x["how"] == "full":
            return full.nontrivial(x["c"])
        return (c10.PROP if x["how"] == "generic" else c09.PROP).nontrivial(x["c"])

    def labels(self, x):
        p = {"full": full.labels, "generic": c10.PROP.labels, "provide": c09.PROP.labels}[x["how"]]
        out = ["kind of definition: " + x["how"]] + [y for y in p(x["c"])]
        out += [f"{min(9, sum(len(m) for m in x['maps']))} names renamed"]
        return out


PROP = C17()
