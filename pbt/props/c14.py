import re

from hypothesis import strategies as st

from .. import build, engine, full, gen
from ..gen import chance
from ..engine import Fail, HarnessError, Ok
from . import c11

CONFIGS = [
    "nostd", "nostd", "stable+2015", "stable+2018", "stable+2024", "synfull", "nightly", "older", "bootstrap", "nostdfull", "newest", "synfull+2024",
]  # fmt: skip


# What there is in core alone.
CORE_TYPES = [
    t for t in gen.TYPES
    if not any(w in t[0] for w in ("Box", "String", "Vec", "Rc", "Arc", "Path", "Cow", "kit::"))
]  # fmt: skip


def _src(ty, val, dyn="s"):
    return {"ty": ty, "vals": [val], "addr": [], "dyn": dyn, "down": None, "cls": "core"}


CORE_SOURCES = [
    _src("std::fmt::Error", "std::fmt::Error"),
    _src("std::num::ParseIntError", '"x".parse::<u8>().unwrap_err()'),
    _src("std::num::ParseFloatError", '"x".parse::<f32>().unwrap_err()'),
    _src("std::str::Utf8Error", "std::str::from_utf8(&[0xff]).unwrap_err()"),
    _src("std::str::ParseBoolError", '"x".parse::<bool>().unwrap_err()'),
    _src("std::array::TryFromSliceError", "<[u8; 2] as std::convert::TryFrom<&[u8]>>::try_from(&[1u8][..]).unwrap_err()"),
    _src("std::char::ParseCharError", '"xx".parse::<char>().unwrap_err()'),
    _src("&'static std::fmt::Error", "&std::fmt::Error"),
    _src("&'static (dyn std::error::Error + 'static)", "&std::fmt::Error", "&**s as &(dyn std::error::Error + 'static)"),
    _src("&'static (dyn std::error::Error + Send + Sync + 'static)", "&std::fmt::Error", "&**s as &(dyn std::error::Error + 'static)"),
]
BARE_HEAD = """#![no_std]
#![allow(warnings)]
pub mod kit { pub const MSG: &str = "const-msg"; pub const W9: usize = 9; pub fn raw() -> i64 { 7 } }
#[panic_handler] fn on_panic(_: &core::panic::PanicInfo) -> ! { loop {} }
pub fn is_error<E: core::error::Error>() {}
"""


@st.composite
def cases(draw):
    if chance(draw, 1, 5):
        return {"rules": c11.case(draw)}
    if chance(draw, 1, 4):
        c = full.container(draw, types=CORE_TYPES, pool=CORE_SOURCES, rich=False, args=False, kinds=("msg",) * 4 + ("transparent",), generics=False)
        c["bare"] = 1
        return c
    return full.container(draw)


NOSTD_HEAD = "extern crate std as the_standard_library;\n"
NOSTD_USE = """#[allow(unused_imports)] use kit::s::prelude::v1::*;
#[allow(unused_imports)] use kit::s::{vec, format, println, eprintln};
"""
RE_STD = re.compile(r"(?<![\w:])(::)?std::(?=\w)")  # and not the `std` of {std::<?}


def of_edition(rules, edition):
    """What would be read or typed another way in an early edition is replaced by something like it."""
    if edition > "2018":
        return rules
    old = lambda x: x.replace('c"', 'b"').replace("[(3, 1)].into_iter()", "vec![(3, 1)].into_iter()")
    return {**rules, **{k: [old(x) for x in rules[k]] for k in ("args", "odd") if k in rules}}




class C14(engine.Prop):
    id = "C14"
    title = "The same behaviour with and without std, with syn full or not, in every edition and on every compiler"
    rule = "a message with a placeholder, a source, a conversion, a transparent variant or a path"
    per_worker = {"quick": 260, "thorough": 1000}
    rounds = {"quick": 3, "thorough": 14}
    workers = 12
    build_is_checked = True

    def configs(self):
        return CONFIGS

    def strategy(self):
        return cases()

    def nostd(self, cfg):
        return cfg.startswith("nostd")

    def edition(self, cfg):
        m = re.search(r"\+(20\d\d)", cfg)
        return m.group(1) if m else "2021"

    def crate_attrs(self, cfg):
        return "#![no_std]\n" if self.nostd(cfg) else ""

    def crate_items(self, cfg):
        if self.nostd(cfg):
            return NOSTD_HEAD
        return "extern crate core;\nextern crate thiserror;\n" if "2015" in cfg else ""

    def emit(self, c, mode, cfg):
        if "rules" in c:
            return c11.PROP.emit(of_edition(c["rules"], self.edition(cfg)), mode, cfg.split("+")[0])
        text = full.program(c, mode)
        if self.nostd(cfg):
            text = NOSTD_USE + RE_STD.sub("kit::s::", text)
        if "2015" in cfg:
            text = "#[allow(unused_imports)] use {kit, std, core, thiserror};\n" + text
        return text

    def verdicts(self, cases, cfg, mode="derive"):
        res = [None] * len(cases)
        # What is a valid definition is the same everywhere, too.
        rules = [i for i, c in enumerate(cases) if "rules" in c]
        edition = self.edition(cfg).replace("2015", "2018")
        for i, v in zip(rules, c11.PROP.verdicts([of_edition(cases[i]["rules"], edition) for i in rules], cfg.split("+")[0], mode, edition) if rules else []):
            res[i] = v
        rest = [i for i, c in enumerate(cases) if "rules" not in c]
        for i, v in zip(rest, engine.Batch(self, cfg, mode).run([cases[i] for i in rest]) if rest else []):
            res[i] = v
        if self.nostd(cfg) and mode == "derive":
            # Once more, in a crate that would refuse to be built if anything brought in std.
            bare = [i for i, c in enumerate(cases) if c.get("bare") and isinstance(res[i], Ok)]
            self.without_std(cases, bare, cfg, res)
        return res

    def without_std(self, cases, bare, cfg, res):
        while bare:
            src, line, ranges = BARE_HEAD, BARE_HEAD.count("\n") + 1, {}
            for i in bare:
                text = f"pub mod c{i} {{\nuse crate::kit::{{raw, MSG, W9}};\n{RE_STD.sub('core::', full.decl(cases[i], 'derive'))}\n"
                text += "fn check() { crate::is_error::<T>() }\n}\n"
                ranges[i] = (line, line + text.count("\n") - 1)
                line += text.count("\n")
                src += text
            with engine.Work() as wd:
                built = build.build(cfg)
                rc, _, diags, err = engine.compile_src(built, wd, src, emit="metadata", extra=["--crate-type=lib", "-Cpanic=abort"], bare=True)
            if rc == 0:
                return
            bad = engine.Batch(self, cfg, "derive").blame(diags, ranges)
            if not bad:
                if len(bare) > 1:
                    bad = {bare[0]: err}
                else:
                    bad = {i: err for i in bare}
                for d in diags:
                    if d["level"] == "error":
                        bad = {i: d.get("rendered") or "" for i in bare}
                        break
            for i, text in bad.items():
                res[i] = Fail("does not compile without std", text)
            bare = [i for i in bare if i not in bad]

    def nontrivial(self, c):
        if "rules" in c:
            return c11.PROP.nontrivial(c["rules"])
        return full.nontrivial(c)

    def labels(self, c):
        if "rules" in c:
            return ["validity: " + x for x in c11.PROP.labels(c["rules"])]
        return full.labels(c) + (["core only"] if c.get("bare") else [])


PROP = C14()
