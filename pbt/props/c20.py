"""Mistakes that only the type checker can see: reported within the part of the definition that is wrong."""

from hypothesis import strategies as st

from .. import build, engine, gen
from ..engine import Fail, HarnessError, Ok, Work, compile_src
from ..gen import chance, num, pick

TRAITS = {"": "Display", "?": "Debug", "x": "LowerHex", "X": "UpperHex", "o": "Octal", "b": "Binary", "e": "LowerExp", "E": "UpperExp", "p": "Pointer"}
SPECS = ["", "", ":", ":8", ":>4", ":*^9.3", ":?", ":?", ":#?", ":x", ":#x", ":X", ":o", ":b", ":e", ":E", ":p"]
# Types around one that lacks a trait, none of which has it either.
AROUND = ["{}", "{}", "{}", "&'static {}", "Box<{}>", "Option<{}>", "[{}; 2]", "Vec<{}>", "({}, u8)", "std::sync::Arc<{}>"]
SOURCES = ["{}", "{}", "Box<{}>", "Option<{}>", "std::option::Option<Box<{}>>", "&'static {}", "std::sync::Arc<{}>", "Option<&'static {}>", "[{}; 1]"]
FINE = ["u8", "i64", "String", "&'static str", "char", "f64"]
ERRS = ["kit::Leaf", "kit::Node", "std::io::Error", "Box<kit::Leaf>", "Option<kit::Leaf>", "std::fmt::Error"]
NAMES = ["a", "b", "c", "d", "err", "r#type", "größe", "x1"]
VNAMES = ["A", "B", "C", "D", "E"]
# Arguments that are wrong for a field {f} of type u8, in whatever place: (text, what says so).
BADARGS = ["{f}.nope()", "{f}.no_such_field", "{f} + \"x\"", "nope({f})", "{f}.checked_add()", "&{f} + kit::no_such_item", "{f}[0]", "!*{f} & true",
           "(1, {f}).2", "{f}.pow(\"2\")", "match {f} {{ _ => nope }}", "Vec::<u8>::with_capacity(*{f})", "|q: u8| q"]  # fmt: skip


def bare(ty):
    return ty[7:-1] if ty.startswith("Option<") else ty


def trait(spec):
    t = spec[-1:] if spec[-1:].isalpha() or spec[-1:] == "?" else ""
    return t


class Item:
    """Lines of text, with the regions where mistakes are to be reported."""

    def __init__(self):
        self.lines, self.at = [], {}

    def add(self, text, *faults):
        """faults: numbers of mistakes reported here."""
        lo = len(self.lines)
        self.lines += text.split("\n")
        for k in faults:
            self.at.setdefault(k, []).append((lo, len(self.lines) - 1))


def variant(draw, kind, top, used):
    """A variant (or a struct's body) with a list of mistakes in it."""
    how = pick(draw, ["message", "message", "message", "source", "source", "transparent", "fmt" if kind == "enum" else "message"])
    if top and how in ("transparent", "fmt"):
        how = "source"
    v = {"how": how, "shape": pick(draw, ["named", "tuple"]), "fields": [], "lit": [], "args": [], "attr": None, "extra": chance(draw, 1, 4)}
    wrong = chance(draw, 3, 4)

    def field(ty, attrs=(), name=None, bad=None, lacks=None):
        v["fields"].append({"ty": ty, "attrs": list(attrs), "name": name, "bad": bad, "lacks": lacks})

    if how == "transparent":
        if wrong:
            field(pick(draw, ["{}", "{}", "Box<{}>"]), pick(draw, [[], [], ["from"]]), pick(draw, NAMES + ["source"]), "transparent", ["E"])
        else:
            field("kit::Leaf" if used else pick(draw, ERRS[:4]), [], pick(draw, NAMES + ["source"]))
        return v
    if how == "fmt":
        n = num(draw, 0, 3)
        for k, nm in zip(range(n), gen.names(draw, n, NAMES)):
            field(pick(draw, FINE), [], nm)
        v["attr"] = pick(draw, ["nope", "kit::nope", f"kit::fmt{n + 1}", "kit::fmt0" if n else "kit::fmt1", "u8::MAX"]) if wrong else f"kit::fmt{n}"
        v["bad"] = wrong
        return v
    names = gen.names(draw, 5, NAMES)
    for k in range(num(draw, 0, 3)):
        spec = pick(draw, SPECS)
        bad = how == "message" and wrong and chance(draw, 1, 2)
        t = trait(spec)
        if bad:
            field("{}" if t == "p" else pick(draw, AROUND), [], names.pop(), "literal", [t])
        else:
            field({"p": "&'static u8", "e": "f64", "E": "f64", "?": "String", "": pick(draw, FINE)}.get(t, "u32"), [], names.pop())
        if bad or chance(draw, 3, 4):
            for _ in range(pick(draw, [1, 1, 1, 2])):
                v["lit"].append([len(v["fields"]) - 1, spec])
    if how == "source":
        mark = pick(draw, [["source"], ["source"], ["from"], ["source", "from"], ["from", "source"], []])
        if "from" in mark:
            v["fields"], v["lit"] = [], []
        if not mark:
            v["shape"] = "named"
        name = "source" if not mark or chance(draw, 1, 4) else names.pop()
        if wrong:
            f = {"ty": pick(draw, SOURCES[:-1] if "from" in mark else SOURCES), "attrs": mark, "name": name, "bad": "source", "lacks": ["E"]}
        else:
            f = {"ty": pick(draw, [e for e in ERRS if bare(e) not in used]), "attrs": mark, "name": name, "bad": None, "lacks": None}
            used.append(bare(f["ty"]))
        at = num(draw, 0, len(v["fields"]))
        v["fields"].insert(at, f)
        for x in v["lit"]:
            x[0] += x[0] >= at
    # Arguments.
    f8 = None
    if wrong and how == "message" and (chance(draw, 1, 2) or not any(f["bad"] for f in v["fields"])) or chance(draw, 1, 5):
        if how != "source" or "from" not in v["fields"][at]["attrs"]:
            f8 = len(v["fields"])
            field("u8", [], names.pop())
    if f8 is not None:
        for k in range(num(draw, 1, 2)):
            bad = wrong and how == "message" and chance(draw, 2, 3)
            v["args"].append([f"n{k}" if chance(draw, 1, 2) else None, pick(draw, BADARGS) if bad else pick(draw, ["{f}", "{f} + 1", "kit::id(*{f})"]), bad, f8])
        v["args"].sort(key=lambda a: a[0] is not None)
    # A literal that is wrong on its own.
    if wrong and how == "message" and chance(draw, 1, 6):
        v["oops"] = pick(draw, ["{nope}", "{nope:?}", "{12}", "{0", "{9}", "{:", "}", "{a b}", "{n0:nope$}"])
    return v


def case(draw):
    kind = pick(draw, ["struct", "struct", "enum", "enum", "enum"])
    used = []
    vs = []
    names = [None] if kind == "struct" else gen.names(draw, num(draw, 1, 4), VNAMES)
    for n in names:
        v = variant(draw, kind, False, used)
        v["name"] = n
        vs.append(v)
    top = None
    if kind == "enum" and chance(draw, 1, 4):
        # A message on the enum for the variants without one.
        spec = pick(draw, SPECS[:-1])
        t = trait(spec)
        for n in gen.names(draw, num(draw, 1, 3), ["F", "G", "H"]):
            bad = chance(draw, 1, 2)
            ty = pick(draw, AROUND) if bad else {"e": "f64", "E": "f64", "?": "String", "": pick(draw, FINE)}.get(t, "u32")
            f = {"ty": ty, "attrs": [], "name": "shared", "bad": "top" if bad else None, "lacks": [t]}
            vs.insert(num(draw, 0, len(vs)), {"name": n, "how": "inherit", "shape": "named", "fields": [f], "lit": [], "args": []})
        top = spec
    c = {"kind": kind, "variants": vs, "top": top, "multi": pick(draw, [0, 0, 1]), "missing": None, "life": chance(draw, 1, 6)}
    if chance(draw, 1, 8):
        c["missing"] = pick(draw, ["Debug", "Display"])
    if kind == "enum" and chance(draw, 1, 5):
        # Two variants of one source type.
        ty = pick(draw, ["kit::Leaf2", "std::num::ParseIntError", "Box<kit::Leaf2>", "Option<kit::Leaf2>"])
        pair = [ty, ty]
        if "Option" in ty:
            pair[num(draw, 0, 1)] = "kit::Leaf2"
        c["pair"] = pair
        c["pshape"] = [pick(draw, [None, None, "source", "x", "r#type", "cause"]) for _ in pair]
        c["pmark"] = [pick(draw, ["from", "from", "from", "source from", "from source"]) for _ in pair]
    return c


def spread(pieces, multi):
    return ("\n" if multi else " ").join(pieces)


def layout(c):
    """The definition, as an Item; mistakes are numbered, with a short name for each."""
    it, what, types = Item(), [], []

    def fault(name):
        what.append(name)
        return len(what) - 1

    def lacking(lacks):
        n = f"N{len(types)}"
        types.append((n, lacks))
        return n

    miss = c["missing"]
    if miss:
        k = fault("no " + miss)
    bad_top = [k] if miss else []
    head = []  # (text, faults) before the item

    def message(v, ind):
        names = {}
        lit = []
        bad = []
        group = []
        groups.append(group)
        for i, spec in v["lit"]:
            f = v["fields"][i]
            nm = f["name"].removeprefix("r#") if v["shape"] == "named" else str(i)
            lit.append("{" + nm + spec + "}")
            if f["bad"] == "literal":
                bad.append(f["k"])
                group.append(f["k"])
        for nm, *_ in v["args"]:
            lit.append("{" + (nm or "") + ":?}")
        if v["shape"] == "tuple" and any(a[0] is None for a in v["args"]) and (v["lit"] or v.get("oops")):
            # A position beside an unnamed argument would be ambiguous.
            for a in v["args"]:
                a[0] = a[0] or "m0"
            seen = []
            for n, a in enumerate(v["args"]):
                if a[0] in seen:
                    a[0] = f"m{n}"
                seen.append(a[0])
            lit = lit[: len(v["lit"])] + ["{" + a[0] + ":?}" for a in v["args"]]
        if v.get("oops"):
            lit.append(v["oops"])
            k = fault("malformed message")
            bad.append(k)
            group.append(k)
        text = '"m ' + (" \\\n" if c["multi"] else " ").join(lit) + '"'
        it.add(ind + "#[error(")
        it.add(ind + text + ",", *bad)
        for nm, expr, wrong, i in v["args"]:
            f = v["fields"][i]
            e = expr.replace("{{", "{").replace("}}", "}") if "{{" in expr else expr
            e = e.replace("{f}", "." + (f["name"].removeprefix("r#") if v["shape"] == "named" and not f["name"].startswith("r#") else f["name"] if v["shape"] == "named" else str(i)))
            ks = [fault("argument")] if wrong else []
            it.add(ind + (nm + " = " if nm else "") + e + ",", *ks)
            group += ks
        it.add(ind + ")]")

    # Number the mistakes of the fields first.
    show = miss != "Display"
    for v in c["variants"]:
        for f in v["fields"]:
            f["real"] = f["ty"]
            if not show and f["bad"] == "transparent":
                # Without its attribute, it is a field like any other.
                f["bad"] = "source" if f["attrs"] or f["name"] == "source" and v["shape"] == "named" else None
                if f["bad"] is None:
                    f["real"] = "u8"
            if f["bad"]:
                n = lacking(f["lacks"])
                f["real"] = f["ty"].replace("{}", n)
                f["k"] = fault({"literal": "placeholder", "source": "source", "transparent": "transparent", "top": "placeholder of the enum"}[f["bad"]])
    groups = []

    def body(v, ind, tail):
        if not v["fields"]:
            return ""
        it.lines[-1] += " {" if v["shape"] == "named" else " ("
        for f in v["fields"]:
            ks = [f["k"]] if f["bad"] == "source" else []
            for a in f["attrs"]:
                it.add(f"{ind}    #[{a}]", *ks)
            it.add(ind + "    " + (f["name"] + ": " if v["shape"] == "named" else "") + f["real"] + ",", *([] if f["attrs"] else ks))
        it.add(ind + ("}" if v["shape"] == "named" else ")"))

    def attr(v, ind):
        if not show and v["how"] in ("transparent", "fmt"):
            return
        if v["how"] == "inherit":
            pass
        elif v["how"] == "transparent":
            it.add(ind + "#[error(transparent)]", *[f["k"] for f in v["fields"] if f["bad"]])
        elif v["how"] == "fmt":
            it.add(ind + "#[error(fmt = " + v["attr"] + ")]", *([fault("fmt")] if v["bad"] else []))
        elif show:
            message(v, ind)

    it.add("#[derive(thiserror::Error)]")
    g = "<'a>" if c["life"] else ""
    if c["kind"] == "struct":
        v = c["variants"][0]
        if g and v["how"] != "message":
            g = ""
        attr(v, "")
        it.add("pub struct T" + g, *bad_top)
        if g:
            v = dict(v, fields=v["fields"] + [{"name": "life", "real": "&'a str", "attrs": [], "bad": None}])
        body(v, "", ";")
        if not v["fields"] or v["shape"] == "tuple":
            it.lines[-1] += ";"
    else:
        pair = c.get("pair")
        if c["top"] is not None and show:
            it.add("#[error(")
            it.add('"t {shared' + c["top"] + '}",', *[f["k"] for v in c["variants"] for f in v["fields"] if f["bad"] == "top"])
            it.add(")]")
        it.add("pub enum T" + g + " {", *bad_top)
        for v in c["variants"]:
            attr(v, "    ")
            it.add("    " + v["name"])
            body(v, "    ", "")
            it.lines[-1] += ","
        if g:
            if show:
                it.add('    #[error("life")]')
            it.add("    Life(&'a str),")
        if pair:
            k = fault("conflicting From")
            for n, ty in zip(["P0", "P1"], pair):
                if show:
                    it.add('    #[error("p")]')
                i = int(n[1])
                nm = c.get("pshape", [None] * 2)[i]
                it.add(f"    {n}" + (" {" if nm else "("))
                for a in c.get("pmark", ["from"] * 2)[i].split():
                    it.add(f"        #[{a}]", *([k] if a == "from" else []))
                it.add(f"        {nm + ': ' if nm else ''}{ty},")
                it.add("    }," if nm else "    ),")
        it.add("}")
    # Each mistake is reported; of those in one message, at least one is.
    single = [[k] for k, w in enumerate(what) if not any(k in g for g in groups) and not (w.startswith("placeholder") and not show)]
    return it, what, types, [g for g in groups if g] + single, g


class C20(engine.Prop):
    id = "C20"
    title = "What the type checker finds wrong in a definition is reported within the part of it that is wrong"
    rule = "at least one mistake"
    per_worker = {"quick": 1000, "thorough": 1500}
    rounds = {"quick": 2, "thorough": 12}
    has_control = False

    def configs(self):
        return ["stable", "nightly", "stable", "synfull", "stable", "nostd"]

    def strategy(self):
        return st.composite(case)()

    def crate_attrs(self, cfg):
        return "#![feature(error_generic_member_access)]\n" if cfg == "nightly" else ""

    def render(self, c):
        """(text, regions by mistake as line offsets, names of the mistakes, groups of them of which one must be reported)"""
        import copy

        it, what, types, groups, g = layout(copy.deepcopy(c))
        out = list(it.lines)
        w = "<'_>" if g else ""
        if c["missing"] != "Debug":
            out.append(f"impl std::fmt::Debug for T{w} {{ fn fmt(&self, f: &mut kit::Fmt) -> kit::FmtResult {{ Ok(()) }} }}")
        for n, lacks in types:
            out.append(f"pub struct {n};")
            for t, name in TRAITS.items():
                if t not in lacks and t != "p":
                    out.append(f"impl std::fmt::{name} for {n} {{ fn fmt(&self, f: &mut kit::Fmt) -> kit::FmtResult {{ Ok(()) }} }}")
        return "\n".join(out), it.at, what, groups

    def emit(self, c, mode, cfg):
        return self.render(c)[0] + "\npub fn run(cx: &mut kit::Cx) {}"

    def verdicts(self, cases, cfg, mode="derive"):
        built = build.build(cfg)
        res = []
        with Work() as wd:
            batch = engine.Batch(self, cfg, mode)
            src, ranges = batch.source(list(enumerate(cases)))
            rc, _, diags, err = compile_src(built, wd, src, emit="metadata")
        errs = {i: [] for i in range(len(cases))}
        starts = sorted((a, b, i) for i, (a, b) in ranges.items())
        import bisect

        keys = [a for a, _, _ in starts]
        for d in diags:
            if d["level"] != "error" or d["message"].startswith("aborting"):
                continue
            prim = [s for s in d["spans"] if s["is_primary"]]
            where = None
            for s in prim:
                # The innermost place in the source: where the tokens come from.
                while s and not s["file_name"].endswith("case.rs"):
                    s = (s.get("expansion") or {}).get("span")
                if s:
                    where = (s["line_start"], s["line_end"])
                    break
            if where is None:
                raise HarnessError("an error outside every case: " + str(d.get("rendered"))[:2000])
            k = bisect.bisect(keys, where[0]) - 1
            a, b, i = starts[k] if k >= 0 else (0, -1, None)
            if not a <= where[0] <= b:
                raise HarnessError("an error outside every case: " + str(d.get("rendered"))[:2000])
            errs[i].append((where[0] - a - 1, where[1] - a - 1, d))
        for i, c in enumerate(cases):
            res.append(self.judge(c, errs[i]))
        return res

    def judge(self, c, errs):
        text, at, what, groups = self.render(c)
        hit = set()
        for lo, hi, d in errs:
            ks = {k for k, rs in at.items() for a, b in rs if a <= lo and hi <= b}
            if not ks:
                return Fail("reported elsewhere", f"mistakes: {sorted(set(what))}\n" + (d.get("rendered") or d["message"]))
            hit |= ks
        lost = [g for g in groups if not hit & set(g)]
        if lost:
            return Fail("not reported", ", ".join(what[g[0]] for g in lost) + "\n" + "\n".join(d.get("rendered") or "" for _, _, d in errs))
        return Ok(max(1, len(errs)))

    def nontrivial(self, c):
        return bool(self.render(c)[2])

    def labels(self, c):
        what = self.render(c)[2]
        out = {c["kind"], "mistakes: " + str(min(len(what), 4))}
        out.update(what)
        return sorted(out)


PROP = C20()
