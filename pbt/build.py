"""Builds the support library and thiserror from /repo's working tree, per configuration.

A build is reused only when a hash over the content of /repo's sources and of the harness
matches: file times play no part, so a changed tree is never mistaken for a built one.
"""

import fcntl
import hashlib
import json
import os
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("PBT_REPO", "/repo")
OUT = os.path.join(VERIF, ".build")

OLD_NIGHTLY = "nightly-2025-05-01"

#: name -> (toolchain, cargo features of the kit crate, extra environment)
CONFIGS = {
    "stable": ("stable", ["std"], {}),
    "synfull": ("stable", ["std", "synfull"], {}),
    "nostd": ("stable", [], {}),
    "nightly": (OLD_NIGHTLY, ["std"], {}),
    "nostdfull": ("stable", ["synfull"], {}),
    "bootstrap": ("stable", ["std"], {"RUSTC_BOOTSTRAP": "1"}),
    "older": ("1.98.1", ["std"], {}),
    "newest": ("nightly-2026-08-21", ["std"], {}),
}


class HarnessError(Exception):
    """The check could not decide: neither "held" nor "violated"."""


def base_env(extra=None):
    env = dict(os.environ)
    for k in (
        "RUSTFLAGS CARGO_ENCODED_RUSTFLAGS RUSTC_BOOTSTRAP CARGO_TARGET_DIR RUST_BACKTRACE "
        "RUST_LIB_BACKTRACE RUSTC_WRAPPER RUSTC_WORKSPACE_WRAPPER RUSTDOCFLAGS TRYBUILD "
        "CARGO_BUILD_TARGET CARGO_INCREMENTAL RUSTUP_TOOLCHAIN CARGO_BUILD_RUSTFLAGS"
    ).split():
        env.pop(k, None)
    env["HOME"] = "/root"
    env["PATH"] = "/root/.cargo/bin:/usr/local/bin:/usr/local/sbin:/usr/bin:/usr/sbin:/bin:/sbin"
    env["CARGO_NET_OFFLINE"] = "true"
    env["CARGO_TERM_COLOR"] = "never"
    env["LANG"] = "C.UTF-8"
    env.update(extra or {})
    return env


def tree_hash():
    h = hashlib.sha256()
    with open(os.path.abspath(__file__), "rb") as f:
        h.update(f.read())
    roots = [
        (REPO, ["Cargo.toml", "build.rs", "build", "src", "impl"]),
        (os.path.join(VERIF, "harness"), ["kit", "synfull"]),
    ]
    for root, names in roots:
        for name in names:
            p = os.path.join(root, name)
            files = []
            if os.path.isfile(p):
                files = [p]
            else:
                for d, dirs, fs in os.walk(p):
                    dirs[:] = sorted(x for x in dirs if x not in ("target", ".git"))
                    files += [os.path.join(d, f) for f in sorted(fs)]
            for f in files:
                h.update(os.path.relpath(f, root).encode() + b"\0")
                with open(f, "rb") as fh:
                    h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()


class Built:
    def __init__(self, d):
        self.__dict__.update(d)

    def rustc_args(self, bare=False):
        out = [x for d in self.deps for x in ("-L", f"dependency={d}")]
        for name in ("thiserror",) if bare else ("thiserror", "kit", "anyhow"):
            lib = getattr(self, name)
            out += ["--extern", f"{name}={lib}"]
            if self.split:  # newer cargo leaves the metadata out of the rlib
                out += ["--extern", f"{name}={self.rmeta[name]}"]
        return out


_rustc = {}


def rustc_path(toolchain):
    if toolchain not in _rustc:
        r = subprocess.run(
            ["rustup", "which", "rustc", "--toolchain", toolchain],
            env=base_env(), capture_output=True, text=True,
        )  # fmt: skip
        if r.returncode:
            raise HarnessError(f"toolchain {toolchain} is missing: {r.stderr}")
        _rustc[toolchain] = r.stdout.strip()
    return _rustc[toolchain]


def build(config):
    config = config.split("+")[0]  # "nightly+backtrace" differs from "nightly" only when run
    toolchain, features, extra = CONFIGS[config]
    os.makedirs(OUT, exist_ok=True)
    target = os.path.join(OUT, "t-" + config)
    os.makedirs(target, exist_ok=True)
    with open(os.path.join(OUT, f"lock-{config}"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        stamp = os.path.join(target, "stamp.json")
        want = tree_hash()
        try:
            with open(stamp) as f:
                old = json.load(f)
            if old["hash"] == want and all(
                os.path.exists(old[k]) for k in ("thiserror", "kit", "anyhow")
            ):
                return Built(old)
        except (OSError, ValueError, KeyError):
            pass
        if os.path.exists(stamp):
            os.unlink(stamp)
        # Forget whatever cargo believes about the crates under test.
        for sub in ("debug/deps", "debug/.fingerprint", "debug/build", "debug"):
            d = os.path.join(target, sub)
            if os.path.isdir(d):
                for n in os.listdir(d):
                    if any(k in n for k in ("thiserror", "kit-", "libkit")) or n == "kit":
                        p = os.path.join(d, n)
                        shutil.rmtree(p) if os.path.isdir(p) else os.unlink(p)
        env = base_env({"RUSTUP_TOOLCHAIN": toolchain, "CARGO_TARGET_DIR": target, **extra})
        cmd = ["cargo", "build", "--offline", "--message-format=json", "--no-default-features"]
        if features:
            cmd += ["--features", ",".join(features)]
        r = subprocess.run(
            cmd, cwd=os.path.join(VERIF, "harness", "kit"), env=env, capture_output=True, text=True
        )
        if r.returncode:
            msgs = []
            for line in r.stdout.splitlines():
                try:
                    m = json.loads(line)
                except ValueError:
                    continue
                if m.get("reason") == "compiler-message" and m["message"]["level"] == "error":
                    msgs.append(m["message"]["rendered"])
            raise HarnessError(f"build of {config} failed:\n{''.join(msgs)}\n{r.stderr[-3000:]}")
        info = {"hash": want, "deps": [os.path.join(target, "debug", "deps")], "config": config, "rmeta": {}}
        info["cfgs"] = {}
        for line in r.stdout.splitlines():
            try:
                m = json.loads(line)
            except ValueError:
                continue
            if m.get("reason") == "compiler-artifact":
                name = m["target"]["name"].replace("-", "_")
                if name in ("thiserror", "kit", "anyhow"):
                    for f in m["filenames"]:
                        if f.endswith(".rlib"):
                            info[name] = f
                for f in m["filenames"]:
                    if f.endswith(".rmeta"):
                        info["rmeta"][name] = f
                    if os.path.dirname(f) not in info["deps"]:
                        info["deps"].append(os.path.dirname(f))
            elif m.get("reason") == "build-script-executed":
                info["cfgs"][m["package_id"]] = m["cfgs"]
        # Prefer the copies in deps/, which carry the hash that dependants look for.
        for name in ("thiserror", "kit", "anyhow"):
            if name not in info:
                raise HarnessError(f"cargo named no rlib for {name}")
        info["split"] = not os.path.isdir(os.path.join(target, "debug", "deps"))
        info["rustc"] = rustc_path(toolchain)
        info["env"] = extra
        with open(stamp + ".new", "w") as f:
            json.dump(info, f)
        os.rename(stamp + ".new", stamp)
        return Built(info)


def main(names):
    import concurrent.futures

    def one(c):
        try:
            return c, build(c).thiserror
        except HarnessError as e:
            return c, "failed: " + str(e)

    with concurrent.futures.ThreadPoolExecutor(4) as pool:
        for c, what in pool.map(one, names):
            print(c, what)


if __name__ == "__main__":
    main(sys.argv[1:] or list(CONFIGS))
