"""Generated-program property testing.

A property module supplies a Hypothesis strategy for cases (JSON values), and either `emit`
(Rust code for one case, compiled in batches and run) or its own `verdicts`. The engine

  1. runs the strategy in N worker processes, each a pure function of VERIF_SEED and the
     worker number (Hypothesis, Phase.generate only, no example database);
  2. decides each worker's cases in one batch (one crate, one rustc call, one process);
  3. if a case fails, runs the same strategy with the same seed again, this time with the
     property inside Hypothesis, so that Hypothesis finds the failing case at once (verdicts
     are remembered) and shrinks it, each shrink step being compiled and run on its own;
  4. checks that the shrunk case is not the harness's fault: a twin program in which the
     derive is replaced by the handwritten impls of the oracle must pass;
  5. writes the shrunk case and its program as the replay file.
"""

import collections
import concurrent.futures
import hashlib
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

import hypothesis
from hypothesis import HealthCheck, Phase, given, settings

from . import build
from .build import HarnessError, OUT, VERIF

WORKERS = 8


#: Seconds that a compiler or a program may take; `judge` lowers it while it looks for the case that hangs.
LIMIT = 90


# rustc computes where in a literal a format trait that does not exist is, from the literal that it is given;
# in the source, where it has another length, that can be in the middle of a character.
RUSTC_BUG = re.compile(r"panicked at .*compiler/rustc_(span|errors|lexer)/src/")


class Stuck(HarnessError):
    """A compiler or a program did not finish, or the compiler crashed. What it printed is in `out`."""

    def __init__(self, kind, text, out=""):
        super().__init__(text)
        self.kind, self.out = kind, out


def key_of(case):
    return hashlib.sha256(json.dumps(case, sort_keys=True).encode()).hexdigest()[:24]


class Fail:
    """A case that the code under test gets wrong."""

    def __init__(self, kind, detail, log=""):
        self.kind, self.detail, self.log = kind, detail, log

    def to_json(self):
        return {"kind": self.kind, "detail": self.detail, "log": self.log[-6000:]}


class Ok:
    def __init__(self, checks=1):
        self.checks = checks


# ---------------------------------------------------------------------------
# Compiling and running a batch.


class Work:
    """A scratch directory that is removed afterwards."""

    def __enter__(self):
        d = os.path.join(OUT, "work")
        os.makedirs(d, exist_ok=True)
        self.path = tempfile.mkdtemp(dir=d)
        return self.path

    def __exit__(self, *a):
        shutil.rmtree(self.path, ignore_errors=True)


def run_cmd(cmd, timeout=None, env=None, cwd=None):
    """Returns (returncode, stdout, stderr)."""
    timeout = timeout or LIMIT
    p = subprocess.Popen(
        cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True
    )
    try:
        o, e = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        o, _ = p.communicate()
        text = f"did not finish within {timeout:.0f}s: {' '.join(cmd)[:300]}"
        raise Stuck("does not finish", text, o.decode("utf-8", "replace")) from None
    return p.returncode, o.decode("utf-8", "replace"), e.decode("utf-8", "replace")


def parse_diags(stderr):
    out = []
    for line in stderr.splitlines():
        if line.startswith("{"):
            try:
                m = json.loads(line)
            except ValueError:
                continue
            if "level" in m and "spans" in m:
                out.append(m)
    return out


def span_lines(diag, main_file):
    """Every line of the main file that a diagnostic points at, following macro expansions out."""
    lines = []

    def walk(s):
        if s is None:
            return
        if os.path.basename(s["file_name"]) == main_file:
            lines.append((bool(s["is_primary"]), s["line_start"], s["line_end"]))
        exp = s.get("expansion")
        if exp:
            walk(exp["span"])

    for s in diag["spans"]:
        walk(s)
    return lines


def compile_src(built, workdir, src, name="case", extra=(), edition="2021", timeout=None, emit=None, bare=False):
    path = os.path.join(workdir, name + ".rs")
    with open(path, "w", encoding="utf-8") as f:
        f.write(src)
    exe = os.path.join(workdir, name + ".bin")
    cmd = [
        built.rustc, path, "--crate-name", name, f"--edition={edition}", "--error-format=json",
        "-Cdebuginfo=0", "-Copt-level=0", "-Cincremental=", "-Ccodegen-units=4",
    ]  # fmt: skip
    cmd = [c for c in cmd if c != "-Cincremental="]
    cmd += ["--emit=" + emit] if emit else []
    cmd += ["-o", exe, *built.rustc_args(bare), *extra]
    rc, o, e = run_cmd(cmd, timeout, env=build.base_env(built.env), cwd=workdir)
    if rc not in (0, 1):
        at = re.search(r"thread 'rustc'.* panicked at .*\n.*", e)
        raise Stuck("crashes the compiler", f"rustc ended with {rc}: {at.group() if at else ''}\n{e[-2000:]}")
    return rc, exe, parse_diags(e), e


class Batch:
    """One crate made of many cases, each in a module of its own."""

    def __init__(self, prop, cfg, mode):
        self.prop, self.cfg, self.mode = prop, cfg, mode
        self.built = build.build(cfg)

    def source(self, cases):
        """cases: list of (index, case). Returns (text, ranges by index)."""
        head = self.prop.crate_attrs(self.cfg) + "#![allow(warnings)]\n"
        head += "extern crate kit;\n" + self.prop.crate_items(self.cfg)
        out = [head]
        line = head.count("\n") + 1
        ranges = {}
        for i, case in cases:
            body = self.prop.emit(case, self.mode, self.cfg)
            text = f"pub mod c{i} {{\n{body}\n}}\n"
            n = text.count("\n")
            ranges[i] = (line, line + n - 1)
            line += n
            out.append(text)
        out.append("fn main() {\n    kit::begin();\n    let only = kit::args();\n")
        for i, _ in cases:
            out.append(f'    kit::run_case_if(&only, "c{i}", c{i}::run);\n')
        out.append("}\n")
        return "".join(out), ranges

    def run(self, cases):
        """cases: list. Returns list of Ok/Fail, in order."""
        todo = list(enumerate(cases))
        res = {}
        with Work() as wd:
            while todo:
                src, ranges = self.source(todo)
                rc, exe, diags, err = compile_src(
                    self.built, wd, src, edition=self.prop.edition(self.cfg)
                )
                if rc == 0:
                    self.execute(exe, todo, res)
                    break
                bad = self.blame(diags, ranges)
                if not bad:
                    if len(todo) == 1:
                        bad = {todo[0][0]: err}
                    elif self.unclear(diags):
                        # Nothing points at a case: bisect.
                        mid = len(todo) // 2
                        for part in (todo[:mid], todo[mid:]):
                            sub = Batch(self.prop, self.cfg, self.mode).run([c for _, c in part])
                            for (i, _), v in zip(part, sub):
                                res[i] = v
                        break
                    else:
                        raise HarnessError("rustc failed without an error:\n" + err[-3000:])
                for i, text in bad.items():
                    res[i] = Fail("does not compile", text)
                todo = [(i, c) for i, c in todo if i not in bad]
        return [res[i] for i in range(len(cases))]

    @staticmethod
    def unclear(diags):
        return True

    def blame(self, diags, ranges):
        bad = {}
        for d in diags:
            if d["level"] != "error" and not d["level"].startswith("error"):
                continue
            ls = span_lines(d, "case.rs")
            prim = [x for x in ls if x[0]] or ls
            for _, lo, hi in prim:
                for i, (a, b) in ranges.items():
                    if a <= lo <= b:
                        bad.setdefault(i, d.get("rendered") or d["message"])
        return bad

    def execute(self, exe, todo, res):
        pending = [i for i, _ in todo]
        env = build.base_env(self.prop.run_env(self.cfg))
        alone = False
        while pending:
            args = [f"c{pending[0]}"] if alone else [f"c{i}" for i in pending]
            try:
                rc, o, e = run_cmd([exe, *args], 30 if len(args) == 1 else None, env=env)
            except Stuck as x:
                rc, o, e = "no status", x.out, str(x)
            fails = collections.defaultdict(list)
            done = set()
            for line in o.split("\n"):
                parts = line.split(" ", 2)
                if parts[0] == "F":
                    fails[parts[1]].append(parts[2])
                elif parts[0] == "R":
                    i = int(parts[1][1:])
                    st, n = parts[2].split(" ")
                    done.add(i)
                    if st == "ok":
                        res[i] = Ok(int(n))
                    else:
                        res[i] = Fail("wrong behaviour", " || ".join(fails[parts[1]]))
            pending = [i for i in pending if i not in done]
            if not pending:
                break
            # The first case without a result ended the process. Decide it on its own.
            if alone or len(args) == 1:
                res[pending[0]] = Fail("crashed", f"the process ended with {rc}: {e[-500:]}")
                pending = pending[1:]
                alone = False
            else:
                alone = True


# ---------------------------------------------------------------------------
# Property base class.


class Prop:
    id = None
    title = ""
    rule = ""
    #: Cases per worker, by tier.
    per_worker = {"quick": 60, "thorough": 400}
    #: How many rounds (fresh seeds) the workers make, by tier.
    rounds = {"quick": 1, "thorough": 4}
    workers = WORKERS
    assumptions = []
    #: A failing case counts only if its twin, the derive replaced by handwritten impls, passes.
    has_control = True
    #: A configuration that does not build is a violation of this property.
    build_is_checked = False
    max_discarded = 0.05
    shrink_evals = 90
    shrink_seconds = 150

    def configs(self):
        """Configurations, dealt to the workers in turn."""
        return ["stable"]

    def strategy(self):
        raise NotImplementedError

    def emit(self, case, mode, cfg):
        raise NotImplementedError

    def crate_attrs(self, cfg):
        return ""

    def crate_items(self, cfg):
        return ""

    def edition(self, cfg):
        return "2021"

    def run_env(self, cfg):
        return {}

    def labels(self, case):
        return []

    def nontrivial(self, case):
        return True

    def sample(self, case, cfg):
        return self.emit(case, "derive", cfg)

    def verdicts(self, cases, cfg, mode="derive"):
        return Batch(self, cfg, mode).run(cases)

    def known(self, case, fail):
        """The key of a listed known finding that this failure is, or None."""
        return None

    def extra_evidence(self):
        return {}

    def probes(self, seed, tier):
        """Fixed extra work: yields (label, Ok or Fail, replay dict)."""
        return []


# ---------------------------------------------------------------------------
# Generation.


def _settings(n, shrink):
    return settings(
        max_examples=n,
        deadline=None,
        database=None,
        derandomize=False,
        phases=[Phase.generate, Phase.shrink] if shrink else [Phase.generate],
        suppress_health_check=list(HealthCheck),
        print_blob=False,
        report_multiple_bugs=False,
        verbosity=hypothesis.Verbosity.quiet,
    )


def generate(prop, seed, n):
    out, seen = [], set()

    @hypothesis.seed(seed)
    @_settings(n, False)
    @given(prop.strategy())
    def collect(case):
        k = key_of(case)
        if k not in seen:
            seen.add(k)
            out.append(case)

    collect()
    return out


def sub_seed(seed, rnd, worker):
    return int.from_bytes(
        hashlib.sha256(f"{seed}/{rnd}/{worker}".encode()).digest()[:6], "big"
    )


def sound(prop, cfg, fails):
    """Splits failures into those that the code under test is to blame for, and the number of
    cases that are no test at all because their handwritten twin fails too."""
    if not fails or not prop.has_control:
        return fails, []
    twins = judge(prop, [c for c, _ in fails], cfg, mode="hand")
    keep = [f for f, t in zip(fails, twins) if isinstance(t, Ok)]
    drop = [(f[0], t) for f, t in zip(fails, twins) if isinstance(t, Fail)]
    return keep, drop


def stop_file():
    return os.path.join(OUT, "work", f"stop-{os.environ.get('PBT_MAIN', '0')}")


def judge(prop, cases, cfg, mode="derive"):
    """The verdicts. If the compiler hangs or crashes over the lot, finds one case that makes it do so."""
    global LIMIT

    def part(cases):
        global LIMIT
        if os.path.exists(stop_file()):
            return [Ok(0) for _ in cases]
        LIMIT = 45 if len(cases) == 1 else 8 + 0.06 * len(cases)
        return search(cases)

    def search(cases):
        try:
            return prop.verdicts(cases, cfg, mode)
        except Stuck as e:
            if len(cases) == 1:
                if RUSTC_BUG.search(str(e)):
                    return [Ok(0)]
                return [Fail(e.kind, str(e))]
        mid = len(cases) // 2
        a = part(cases[:mid])
        if any(isinstance(v, Fail) for v in a):
            return a + [Ok(0) for _ in cases[mid:]]
        return a + part(cases[mid:])

    before = LIMIT
    try:
        return search(cases)
    finally:
        LIMIT = before


def worker_main(args):
    prop_id, seed, rnd, worker, n = args
    try:
        from .props import load

        prop = load(prop_id)
        cfg = prop.configs()[worker % len(prop.configs())]
        cases = generate(prop, sub_seed(seed, rnd, worker), n)
        if os.path.exists(stop_file()):
            cases = cases[:1]
        vs = judge(prop, cases, cfg)
        if any(isinstance(v, Fail) and v.kind in ("does not finish", "crashes the compiler") for v in vs):
            with open(stop_file(), "w"):
                pass
        labels = collections.Counter()
        nontrivial = 0
        keys = []
        checks = 0
        fails = []
        for c, v in zip(cases, vs):
            for lab in prop.labels(c):
                labels[lab] += 1
            if prop.nontrivial(c):
                nontrivial += 1
                keys.append(key_of(c))
            if isinstance(v, Ok):
                checks += v.checks
            else:
                fails.append((c, v))
        fails, discarded = sound(prop, cfg, fails)
        small = sorted(cases, key=lambda c: abs(len(json.dumps(c)) - 700))[:1]
        samples = [prop.sample(c, cfg) for c in small] if worker < 4 and rnd == 0 else []
        return dict(
            cfg=cfg, n=len(cases), labels=labels, nontrivial=keys, checks=checks, fails=fails, discarded=discarded,
            samples=samples, worker=worker, rnd=rnd,
        )  # fmt: skip
    except HarnessError as e:
        return dict(error=str(e), worker=worker, rnd=rnd)
    except BaseException:
        return dict(error=traceback.format_exc(), worker=worker, rnd=rnd)


def shrink(prop, cfg, seed, n, first_case, first_fail):
    """Lets Hypothesis shrink: same seed, remembered verdicts, new ones decided one by one."""
    global LIMIT
    LIMIT = 20
    seconds = 40 if first_fail.kind == "does not finish" else prop.shrink_seconds
    best = [first_case, first_fail]
    verdict = {key_of(first_case): first_fail}
    evals = [0]
    t0 = time.time()
    found = [False]

    def decide(case):
        k = key_of(case)
        if k in verdict:
            return verdict[k]
        if not found[0]:
            return Ok()  # before the known failing case: passed in the batch
        if evals[0] >= prop.shrink_evals or time.time() - t0 > seconds:
            return Ok()
        evals[0] += 1
        try:
            v = judge(prop, [case], cfg)[0]
            if isinstance(v, Fail) and prop.known(case, v):
                v = Ok()
            if isinstance(v, Fail) and v.kind != first_fail.kind:
                v = Ok()  # do not slip to a different kind of failure
            if isinstance(v, Fail) and not sound(prop, cfg, [(case, v)])[0]:
                v = Ok()
        except HarnessError:
            v = Ok()
        verdict[k] = v
        return v

    @hypothesis.seed(seed)
    @_settings(n, True)
    @given(prop.strategy())
    def find(case):
        v = decide(case)
        if isinstance(v, Fail):
            found[0] = True
            if len(json.dumps(case)) <= len(json.dumps(best[0])):
                best[:] = [case, v]
            raise AssertionError("property violated")

    try:
        find()
    except AssertionError:
        pass
    except Exception:  # Flaky and friends: keep the smallest failing case seen.
        pass
    return best[0], best[1], evals[0]


# ---------------------------------------------------------------------------
# Entry point.


def load_known(pid):
    """KNOWN-FINDING entries: {"property","key","what"}; "fixed" entries suppress nothing."""
    path = os.path.join(VERIF, "known_findings.json")
    with open(path) as f:
        doc = json.load(f)
    return {e["key"]: e for e in doc["findings"] if e["property"] == pid}


def write_replay(prop, cfg, case, fail, extra=None):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{prop.id}-{key_of(case)[:12]}.json")
    try:
        program = prop.sample(case, cfg)
    except Exception as e:
        program = f"(not shown: {e})"
    with open(path, "w") as f:
        json.dump(
            {"property": prop.id, "config": cfg, "case": case, "failure": fail.to_json(),
             "program": program, **(extra or {}),
             "replay": f"python3-vt -m pbt.main {prop.id} --replay {path}"},
            f, indent=1,
        )  # fmt: skip
    return path


def write_evidence(prop, evidence):
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop.id + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)


def regressions(prop):
    d = os.path.join(VERIF, "regress", prop.id)
    if not os.path.isdir(d):
        return []
    out = []
    for n in sorted(os.listdir(d)):
        with open(os.path.join(d, n)) as f:
            j = json.load(f)
        out.append((n, j["case"], j.get("config")))
    return out


def main(prop, tier, seed):
    os.environ["PBT_MAIN"] = str(os.getpid())
    try:
        return run(prop, tier, seed)
    finally:
        if os.path.exists(stop_file()):
            os.remove(stop_file())


def run(prop, tier, seed):
    t0 = time.time()
    known = load_known(prop.id)
    seen_known = {}
    violations = []
    for cfg in dict.fromkeys(prop.configs()):
        try:
            build.build(cfg)
        except HarnessError as e:
            if not prop.build_is_checked or cfg == "stable":
                raise
            build.build("stable")  # an error of the check if it does not build at all
            path = write_replay(prop, cfg, {"build": cfg}, Fail("does not build", str(e)), {"from": "build"})
            write_evidence(prop, {"property": prop.id, "tier": tier, "seed": seed, "level": "exploration", "coverage": {
                "evaluations": 1, "distinct_nontrivial": 1, "rule": prop.rule, "samples": ["build of " + cfg]}, "assumptions": [],
                "wall_s": round(time.time() - t0, 1), "violations": 1})
            print(f"VIOLATION property={prop.id} replay={path}")
            print(f"  does not build in the configuration {cfg}: {str(e)[:1500]}")
            return 1

    # Saved inputs first.
    n_reg = 0
    regs = regressions(prop)
    for cfg in dict.fromkeys(prop.configs()):
        mine = [(n, c) for n, c, want in regs if want in (None, cfg) or want not in prop.configs()]
        if mine:
            for (n, c), v in zip(mine, judge(prop, [c for _, c in mine], cfg)):
                n_reg += 1
                if isinstance(v, Fail):
                    k = prop.known(c, v)
                    if k in known:
                        seen_known[k] = known[k]
                    else:
                        violations.append((cfg, c, v, {"from": "regress/" + n}))

    # Probes: fixed work of the property's own.
    n_probe = 0
    probe_labels = collections.Counter()
    for label, v, replay in prop.probes(seed, tier):
        n_probe += 1
        probe_labels[label] += 1
        if isinstance(v, Fail):
            k = replay.get("known")
            if k in known:
                seen_known[k] = known[k]
            else:
                violations.append((replay.get("config", "stable"), replay, v, {"from": "probe " + label}))

    n = prop.per_worker[tier]
    rounds = prop.rounds[tier]
    agg = collections.Counter()
    labels = collections.Counter()
    keys = set()
    samples = []
    cfgs = collections.Counter()
    errors = []
    discarded = []
    jobs = [(prop.id, seed, r, w, n) for r in range(rounds) for w in range(prop.workers)]
    failed = []
    with concurrent.futures.ProcessPoolExecutor(WORKERS) as pool:
        for res in pool.map(worker_main, jobs):
            if "error" in res:
                errors.append(res["error"])
                continue
            agg["cases"] += res["n"]
            agg["checks"] += res["checks"]
            labels += res["labels"]
            keys.update(res["nontrivial"])
            samples += res["samples"]
            discarded += res["discarded"]
            cfgs[res["cfg"]] += res["n"]
            for c, v in res["fails"]:
                k = prop.known(c, v)
                if k in known:
                    seen_known[k] = known[k]
                else:
                    failed.append((res["rnd"], res["worker"], res["cfg"], c, v))

    if failed:
        failed.sort(key=lambda f: len(json.dumps(f[3])))
        rnd, w, cfg, c, v = failed[0]
        c2, v2, evals = shrink(prop, cfg, sub_seed(seed, rnd, w), n, c, v)
        violations.append((cfg, c2, v2, {"failing_cases": len(failed), "shrink_evaluations": evals}))

    real = []
    for cfg, c, v, extra in violations:
        if "from" in extra and "probe" not in extra["from"] and not sound(prop, cfg, [(c, v)])[0]:
            errors.append(f"the handwritten twin of {extra['from']} fails too: {v.detail[:2000]}")
        else:
            real.append((cfg, c, v, extra))
    if len(discarded) > max(3, prop.max_discarded * agg["cases"]):
        c, t = discarded[0]
        errors.append(f"{len(discarded)} cases have a handwritten twin that fails, such as {c}: {t.detail[:2000]}")

    wall = time.time() - t0
    evidence = {
        "property": prop.id,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": agg["cases"] + n_reg + n_probe,
            "distinct_nontrivial": len(keys),
            "rule": prop.rule,
            "samples": samples[:4] or [r for r in probe_labels][:4],
            "discarded_because_the_handwritten_twin_fails": len(discarded),
            "comparisons": agg["checks"],
            "saved_inputs_replayed": n_reg,
            "probes": n_probe,
            "configurations": dict(cfgs),
            "classes": {k: labels[k] for k in sorted(labels)},
            "probe_classes": dict(probe_labels),
            **prop.extra_evidence(),
        },
        "assumptions": prop.assumptions,
        "wall_s": round(wall, 1),
        "violations": len(real),
    }
    write_evidence(prop, evidence)

    for k in sorted(seen_known):
        print(f"KNOWN-FINDING: property={prop.id} {seen_known[k]['what']}")
    print(
        f"{prop.id}: {agg['cases']} cases, {len(keys)} distinct non-trivial, "
        f"{agg['checks']} comparisons, {len(discarded)} discarded, {n_reg} saved inputs, {n_probe} probes, {wall:.0f}s"
    )
    if discarded and os.environ.get("PBT_DEBUG"):
        for c, t in discarded[:3]:
            print("discarded:", t.detail[:1500])
    if real:
        for cfg, c, v, extra in real[:5]:
            path = write_replay(prop, cfg, c, v, extra)
            print(f"VIOLATION property={prop.id} replay={path}")
            print(f"  {v.kind}: {v.detail[:1500]}")
        return 1
    if errors:
        print(f"ERROR: {prop.id} could not decide:", file=sys.stderr)
        for e in list(dict.fromkeys(errors))[:2]:
            print(e[-2500:], file=sys.stderr)
        return 2
    return 0


def replay(prop, path):
    with open(path) as f:
        j = json.load(f)
    cfg = j["config"]
    case = j["case"]
    if j.get("from") == "build":
        try:
            build.build(cfg)
            bad = []
        except HarnessError as e:
            print(e)
            bad = [1]
    elif j.get("from", "").startswith("probe"):
        print("replaying a probe: running all probes")
        bad = [(lab, v) for lab, v, _ in prop.probes(1, "quick") if isinstance(v, Fail)]
        for lab, v in bad:
            print(lab, v.kind, v.detail[:3000])
    else:
        v = judge(prop, [case], cfg)[0]
        bad = [v] if isinstance(v, Fail) else []
        if bad:
            print(v.kind + ":", v.detail)
    if bad:
        print(f"VIOLATION property={prop.id} replay={path}")
        return 1
    print("passes")
    return 0
