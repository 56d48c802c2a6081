"""The build script under generated environments, and the crate built with what it says.

Cargo is modelled by what it documents: a build script runs again when a variable or file it named changes, and
its rustc-cfg and rustc-check-cfg directives are passed to the crate. probes() does the same with cargo itself.
"""

import json
import os
import random
import subprocess

from hypothesis import strategies as st

from .. import build, engine
from ..build import HarnessError, REPO
from ..engine import Fail, Ok
from ..gen import chance, num, pick

TARGET = "x86_64-unknown-linux-gnu"
#: Compilers: the configuration that has thiserror-impl built for it, and whether it is made to act as a stable one.
TOOLS = {"stable": ("stable", False), "older": ("older", False), "newest": ("newest", False), "nightly": ("nightly", False), "asstable": ("nightly", True)}
BOOT = [None, None, "1", "1", "0", "", "thiserror", "thiserror_impl", "thiserror,other", "other,thiserror", "other", "true", "proc_macro2", "2", "thiserror2"]
WRAPPERS = ["", "", "", "pass", "pass", "unset", "set", "empty"]
FLAGS = [[], [], [], ["--cfg", "extra"], ["--cfg", 'name="a b"'], ["-Copt-level=1"], ["--cap-lints=warn"], ["-Zallow-features="],
         ["-Zallow-features=error_generic_member_access"], ["-Zallow-features=never_type,error_generic_member_access"]]  # fmt: skip
#: What rustc --version may say, and the minor version it means.
VERSIONS = [(None, None)] * 6 + [
    ("rustc 1.61.0 (fe5b13d68 2022-05-18)", 61), ("rustc 1.64.0 (a55dd71d5 2022-09-19)", 64), ("rustc 1.65.0 (897e37553 2022-11-02)", 65),
    ("rustc 1.80.1 (3f5fd8dd4 2024-08-06)", 80), ("rustc 1.81.0 (eeb90cda1 2024-09-04)", 81), ("rustc 1.81.0-beta.3 (abc 2024-08-01)", 81),
    ("rustc 1.100.0-nightly (abc 2030-01-01)", 100), ("rustc 1.9.0", 9), ("rustc 2.0.0 (abc)", None), ("mrustc 0.11", None), ("", None),
    ("rustc 1.66.1-dev", 66), ("rustc 1.x.0", None), ("rustc 1", None),
]  # fmt: skip

ORACLE = """#![no_std]
#![feature(error_generic_member_access)]
use core::error::{Error, Request};
use core::fmt;
#[derive(Debug)] pub struct Inner;
impl fmt::Display for Inner { fn fmt(&self, _: &mut fmt::Formatter) -> fmt::Result { Ok(()) } }
impl Error for Inner {}
#[derive(Debug)] pub struct Outer(pub u8, pub Inner);
impl fmt::Display for Outer { fn fmt(&self, _: &mut fmt::Formatter) -> fmt::Result { Ok(()) } }
impl Error for Outer {
    fn provide<'a>(&'a self, request: &mut Request<'a>) {
        request.provide_ref::<u8>(&self.0);
        self.1.provide(request);
    }
}
"""
USERS = {
    "derives": '#[derive(Debug, thiserror::Error)] #[error("m {0}")] pub struct E(#[from] pub std::fmt::Error);',
    "forwards": '#![feature(error_generic_member_access)]\n#[derive(Debug, thiserror::Error)] #[error("m {0}")] pub struct E(#[from] #[backtrace] pub std::fmt::Error);',
    "prints paths": '#[derive(Debug, thiserror::Error)] #[error("m {0}")] pub struct E(pub std::path::PathBuf);',
    "captures": '#![feature(error_generic_member_access)]\n#[derive(Debug, thiserror::Error)] #[error("m")] pub struct E { #[from] pub source: std::fmt::Error, pub bt: std::backtrace::Backtrace }',
}  # fmt: skip


@st.composite
def cases(draw):
    tool = pick(draw, ["asstable"] * 5 + ["nightly"] * 3 + ["stable", "older", "newest"])
    flags = pick(draw, FLAGS)
    return {
        "tool": tool,
        "std": chance(draw, 1, 2),
        "version": pick(draw, [v for v, _ in VERSIONS]),
        "wrapper": pick(draw, WRAPPERS),
        "workspace_wrapper": pick(draw, WRAPPERS),
        "flags": flags,
        "stage": chance(draw, 1, 10),
        "leftover": chance(draw, 1, 6),
        "steps": [pick(draw, BOOT) for _ in range(num(draw, 1, 6))],
    }


def script(path, text):
    with open(path, "w") as f:
        f.write("#!/bin/sh\n" + text)
    os.chmod(path, 0o755)
    return path


class World:
    """Compilers, wrappers and everything built with them, in a scratch directory."""

    def __init__(self, wd):
        self.wd = wd
        self.memo = {}
        self.n = 0
        self.wrappers = {
            "": None, "empty": "", "pass": script(wd + "/w-pass", 'exec "$@"\n'), "unset": script(wd + "/w-unset", 'unset RUSTC_BOOTSTRAP\nexec "$@"\n'),
            "set": script(wd + "/w-set", 'RUSTC_BOOTSTRAP=1 exec "$@"\n'),
        }  # fmt: skip

    def dir(self):
        self.n += 1
        d = f"{self.wd}/d{self.n}"
        os.mkdir(d)
        return d

    def once(self, key, f):
        key = json.dumps(key)
        if key not in self.memo:
            self.memo[key] = f()
        return self.memo[key]

    def rustc(self, tool, version):
        """Path of a compiler that says it is `version`, and acts as a stable one where asked to."""

        def make():
            cfg, stable = TOOLS[tool]
            real = build.build(cfg).rustc
            if not stable and version is None:
                return real
            s = ""
            if version is not None:
                s += f"if [ \"$1\" = --version ]; then echo '{version}'; exit 0; fi\n"
            if stable:
                # What a stable compiler makes of RUSTC_BOOTSTRAP: 1, or a list of crates.
                s += 'name=; last=; for a in "$@"; do [ "$last" = --crate-name ] && name=$a; case $a in --crate-name=*) name=${a#*=};; esac; last=$a; done\n'
                s += 'case ",${RUSTC_BOOTSTRAP-}," in ,1,) v=1;; *,"$name",*) [ -n "$name" ] && v=1 || v=-1;; *) v=-1;; esac\n'
                s += "export RUSTC_BOOTSTRAP=$v\n"
            self.n += 1
            return script(f"{self.wd}/rustc{self.n}", s + f'exec {real} "$@"\n')

        return self.once(["rustc", tool, version], make)

    def prefix(self, c):
        ws = [self.wrappers[c["wrapper"]], self.wrappers[c["workspace_wrapper"]]]
        return [w for w in ws if w] + [self.rustc(c["tool"], c["version"])]

    @staticmethod
    def env(boot):
        env = build.base_env()
        if boot is not None:
            env["RUSTC_BOOTSTRAP"] = boot
        return env

    def compiles(self, c, boot, name, src):
        """Whether the compiler that is asked to build the crate builds this instead."""

        def do():
            d = self.dir()
            with open(d + "/x.rs", "w") as f:
                f.write(src)
            cmd = [*self.prefix(c), "--crate-name=" + name, "--edition=2021", "--crate-type=lib", "--emit=metadata", "--out-dir", d, d + "/x.rs", *c["flags"]]
            rc, _, e = engine.run_cmd(cmd, 120, env=self.env(boot), cwd=d)
            return rc == 0, e

        return self.once(["compiles", c["tool"], c["wrapper"], c["workspace_wrapper"], c["flags"], boot, name, src], do)[0]

    def script(self, c):
        def do():
            cfg, _ = TOOLS[c["tool"]]
            d = self.dir()
            cmd = [build.build(cfg).rustc, REPO + "/build.rs", "--crate-name=build_script_build", "--edition=2021", "--crate-type=bin", "-o", d + "/build"]
            cmd += ["--cfg", 'feature="std"'] if c["std"] else []
            rc, _, e = engine.run_cmd(cmd, 120, env=build.base_env(), cwd=REPO)
            if rc:
                raise HarnessError("build.rs does not compile:\n" + e)
            return d + "/build"

        return self.once(["script", c["tool"], c["std"]], do)

    def run_script(self, c, boot):
        out = self.dir()
        if c["leftover"]:
            os.mkdir(out + "/probe")
            with open(out + "/probe/thiserror.d", "w") as f:
                f.write("left by a build that was killed")
        env = self.env(boot)
        env.update(
            RUSTC=self.rustc(c["tool"], c["version"]), OUT_DIR=out, TARGET=TARGET, HOST=TARGET, CARGO_ENCODED_RUSTFLAGS="\x1f".join(c["flags"]),
            CARGO_MANIFEST_DIR=REPO, CARGO_PKG_NAME="thiserror", CARGO_PKG_VERSION="2.0.12", PROFILE="debug", OPT_LEVEL="0", DEBUG="true", NUM_JOBS="8",
            CARGO_CFG_TARGET_OS="linux", CARGO_CFG_TARGET_ARCH="x86_64", CARGO="cargo", RUSTDOC="rustdoc",
        )  # fmt: skip
        if c["std"]:
            env["CARGO_FEATURE_STD"] = "1"
        for k, w in (("RUSTC_WRAPPER", c["wrapper"]), ("RUSTC_WORKSPACE_WRAPPER", c["workspace_wrapper"])):
            if self.wrappers[w] is not None:
                env[k] = self.wrappers[w]
        if c["stage"]:
            env["RUSTC_STAGE"] = "1"
        rc, o, e = engine.run_cmd([self.script(c)], 120, env=env, cwd=REPO)
        left = sorted(os.listdir(out))
        say = {"cfg": [], "check": [], "env": []}
        for line in o.splitlines():
            for p in ("cargo:", "cargo::"):
                for k, key in (("cfg", "rustc-cfg="), ("check", "rustc-check-cfg="), ("env", "rerun-if-env-changed=")):
                    if line.startswith(p + key):
                        say[k].append(line[len(p + key):])
        return rc, say, left, e

    def lib(self, c, boot, say):
        """Builds the crate as cargo would. Returns (path of the metadata or None, diagnostics)."""

        def do():
            cfg, _ = TOOLS[c["tool"]]
            d = self.dir()
            cmd = [*self.prefix(c), "--crate-name", "thiserror", "--edition=2021", REPO + "/src/lib.rs", "--error-format=json", "--crate-type", "lib", "--emit=metadata",
                   "-Cmetadata=0123", "--out-dir", d, "--extern", "thiserror_impl=" + impl_so(cfg), "-Wunexpected_cfgs"]  # fmt: skip
            cmd += ["--check-cfg", "cfg(docsrs,test)", "--check-cfg", 'cfg(feature, values("default", "std"))']
            cmd += ["--cfg", 'feature="std"'] if c["std"] else []
            cmd += ["--target", TARGET]
            for x in say["cfg"]:
                cmd += ["--cfg", x]
            for x in say["check"]:
                cmd += ["--check-cfg", x]
            rc, _, e = engine.run_cmd([*cmd, *c["flags"]], 120, env=self.env(boot), cwd=REPO)
            warn = [x["rendered"] for x in engine.parse_diags(e) if "unexpected_cfgs" in json.dumps(x.get("code"))]
            return (d + "/libthiserror.rmeta" if rc == 0 else None), "".join(warn), e

        return self.once(["lib", c["tool"], c["wrapper"], c["workspace_wrapper"], c["flags"], boot, c["std"], say["cfg"], say["check"]], do)

    def user(self, c, lib, which, so=None):
        """Whether a crate that may use unstable features builds with it."""

        def do():
            cfg, _ = TOOLS[c["tool"]]
            b = build.build(cfg)
            d = self.dir()
            with open(d + "/u.rs", "w") as f:
                f.write("#![allow(warnings)]\n" + USERS[which])
            cmd = [b.rustc, d + "/u.rs", "--crate-name=u", "--edition=2021", "--crate-type=lib", "--emit=metadata", "--out-dir", d, "--extern", "thiserror=" + lib]
            cmd += ["-L", "dependency=" + (so or os.path.dirname(impl_so(cfg)))]
            rc, _, e = engine.run_cmd(cmd, 120, env=self.env("1"), cwd=d)
            return rc == 0, e

        return self.once(["user", lib, which], do)


_so = {}


def impl_so(cfg):
    if cfg not in _so:
        b = build.build(cfg)
        found = [os.path.join(d, n) for d in b.deps if os.path.isdir(d) for n in os.listdir(d) if n.startswith("libthiserror_impl-") and n.endswith(".so")]
        if not found:
            raise HarnessError("no thiserror_impl for " + cfg)
        _so[cfg] = found[0]
    return _so[cfg]


def shown(c):
    return json.dumps(c)


class C18(engine.Prop):
    id = "C18"
    title = "Builds never depend on unstable features by accident"
    rule = "the sequence has several settings of RUSTC_BOOTSTRAP, or a wrapper, flag or unusual compiler"
    per_worker = {"quick": 70, "thorough": 200}
    rounds = {"quick": 1, "thorough": 8}
    has_control = False
    build_is_checked = True
    shrink_evals = 60

    def configs(self):
        return ["stable", "older", "newest", "nightly"]

    def strategy(self):
        return cases()

    def sample(self, c, cfg):
        return shown(c)

    def verdicts(self, cases, cfg, mode="derive"):
        with engine.Work() as wd:
            w = World(wd)
            return [self.verdict(w, c) for c in cases]

    def verdict(self, w, c):
        minor = dict(VERSIONS)[c["version"]]
        real = {"stable": 99, "older": 98, "newest": 99, "nightly": 88, "asstable": 88}[c["tool"]]
        if c["version"] is None:
            minor = real
        say = boot0 = None
        lib = None
        checks = 0
        for n, boot in enumerate(c["steps"]):
            at = f"step {n}, RUSTC_BOOTSTRAP {'unset' if boot is None else repr(boot)}: "
            now = {"RUSTC_BOOTSTRAP": boot}
            if not w.compiles(c, boot, "thiserror", ""):
                # The compiler does not take these flags at all. Nothing can be built.
                continue
            if say is None or any(now.get(v) != boot0.get(v) for v in say["env"]):
                rc, say, left, err = w.run_script(c, boot)
                if rc:
                    return Fail("build script fails", at + err)
                if left and not c["leftover"]:
                    return Fail("leaves files", at + f"OUT_DIR has {left} afterwards")
                lib, warn, err = w.lib(c, boot, say)
                if lib is None:
                    return Fail("does not build", at + err[-3000:])
                if warn:
                    return Fail("unexpected cfg", at + warn)
                boot0 = now
            offered = not c["stage"] and w.compiles(c, boot, "thiserror", ORACLE)
            std = c["std"] or (minor is not None and minor < 81)
            type_ok = minor is None or minor >= 65
            for which, want in (("derives", True), ("forwards", offered), ("prints paths", std), ("captures", offered and std and type_ok)):
                got, err = w.user(c, lib, which)
                checks += 1
                if got != want:
                    return Fail(which, at + (f"expected to build, but: {err[-2000:]}" if want else f"builds, though it should not: offered {offered}, std {std}, version {minor}"))
        return Ok(checks)

    def probes(self, seed, tier):
        """Sequences of builds by cargo in one target directory."""
        import concurrent.futures

        rng = random.Random(f"cargo {seed}")
        n, m = (4, 4) if tier == "quick" else (12, 8)
        seqs = []
        for k in range(n):
            c = {"tool": ["asstable", "asstable", "nightly", rng.choice(["stable", "older", "newest"])][k % 4], "version": None, "wrapper": rng.choice(["", "", "pass"]),
                 "workspace_wrapper": rng.choice(["", "", "pass"]), "flags": [], "stage": False}  # fmt: skip
            c["steps"] = [{"boot": rng.choice([None, "1", "1", "thiserror", "0", "proc_macro2,thiserror"]), "std": rng.random() < 0.6} for _ in range(m)]
            seqs.append(c)
        with engine.Work() as wd, concurrent.futures.ThreadPoolExecutor(4) as pool:
            todo = []
            for k, c in enumerate(seqs):
                os.mkdir(f"{wd}/{k}")
                todo.append(World(f"{wd}/{k}"))
            for c, v in zip(seqs, pool.map(self.cargo, todo, seqs)):
                yield "cargo with compiler " + c["tool"], v, c

    def cargo(self, w, c):
        d = w.wd
        os.makedirs(d + "/src")
        with open(d + "/Cargo.toml", "w") as f:
            f.write('[package]\nname = "u"\nversion = "0.0.0"\nedition = "2021"\n[workspace]\n[features]\nstd = ["thiserror/std"]\n[profile.dev]\ndebug = 0\nincremental = false\n'
                    f'[dependencies]\nthiserror = {{ path = "{REPO}", default-features = false }}\n')  # fmt: skip
        with open(d + "/src/lib.rs", "w") as f:
            f.write(USERS["derives"])
        with open(os.path.join(build.VERIF, "harness", "kit", "Cargo.lock")) as f, open(d + "/Cargo.lock", "w") as g:
            g.write(f.read())
        checks = 0
        for n, s in enumerate(c["steps"]):
            at = f"step {n} of {c['steps']}: "
            env = w.env(s["boot"])
            toolchain = build.CONFIGS[TOOLS[c["tool"]][0]][0]
            env.update(RUSTUP_TOOLCHAIN=toolchain, CARGO_TARGET_DIR=d + "/target", RUSTC=w.rustc(c["tool"], None))
            for k, x in (("RUSTC_WRAPPER", c["wrapper"]), ("RUSTC_WORKSPACE_WRAPPER", c["workspace_wrapper"])):
                if w.wrappers[x] is not None:
                    env[k] = w.wrappers[x]
            cmd = ["cargo", "build", "--offline", "--message-format=json"] + (["--features", "std"] if s["std"] else [])
            rc, o, e = engine.run_cmd(cmd, 300, env=env, cwd=d)
            if rc:
                return Fail("does not build", at + e[-2000:] + o[-2000:])
            lib = None
            for line in o.splitlines():
                x = json.loads(line)
                if x.get("reason") == "compiler-artifact" and x["target"]["name"] == "thiserror":
                    lib = next(f for f in x["filenames"] if f.endswith(".rmeta") or f.endswith(".rlib"))
                if x.get("reason") == "compiler-artifact" and x["target"]["name"].replace("-", "_") == "thiserror_impl":
                    so = os.path.dirname(next(f for f in x["filenames"] if f.endswith(".so")))
            offered = w.compiles(c, s["boot"], "thiserror", ORACLE)
            with open(lib, "rb") as f:
                copy = f"{w.dir()}/{os.path.basename(lib)}"
                with open(copy, "wb") as g:
                    g.write(f.read())
            for which, want in (("forwards", offered), ("prints paths", s["std"]), ("captures", offered and s["std"])):
                got, err = w.user(c, copy, which, so)
                checks += 1
                if got != want:
                    return Fail(which, at + (err[-2000:] if want else f"builds, though it should not: offered {offered}"))
        return Ok(checks)

    def nontrivial(self, c):
        return len(set(c["steps"])) > 1 or bool(c["wrapper"] or c["workspace_wrapper"] or c["flags"] or c["version"] or c["stage"])

    def labels(self, c):
        out = {"compiler " + c["tool"], "std" if c["std"] else "no std", f"{len(c['steps'])} steps"}
        for k in ("wrapper", "workspace_wrapper"):
            if c[k]:
                out.add(k + " " + c[k])
        out.add("flags " + " ".join(c["flags"]))
        out.add("version " + str(c["version"]))
        for k in ("stage", "leftover"):
            if c[k]:
                out.add(k)
        for s in c["steps"]:
            out.add("RUSTC_BOOTSTRAP " + ("unset" if s is None else repr(s)))
        return sorted(out)


PROP = C18()
