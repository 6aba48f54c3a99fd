"""Check definition, case execution, sharded search, shrinking, replay and evidence."""

from __future__ import annotations

import hashlib
import importlib
import json
import math
import os
import re
import signal
import subprocess
import sys
import tempfile
import time
import traceback
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
CASE_CPU_LIMIT = 90  # CPU seconds for one case; the usual case takes milliseconds


class Violation(AssertionError):
    """The property does not hold for this case."""


class HarnessError(Exception):
    """Something is wrong with the machinery (never reported as a violation)."""


class CaseTimeout(Violation):
    pass


def fail(msg: str) -> None:
    raise Violation(msg)


def require(cond, msg) -> None:
    if not cond:
        raise Violation(msg() if callable(msg) else msg)


def jdump(x) -> str:
    return json.dumps(x, sort_keys=True, default=_default)


def _default(o):
    import numpy as np

    if isinstance(o, complex):
        return {"__complex__": [o.real, o.imag]}
    if isinstance(o, (np.integer,)):
        return int(o)
    if isinstance(o, (np.floating,)):
        return float(o)
    if isinstance(o, (tuple, set, frozenset)):
        return list(o)
    raise HarnessError(f"case is not JSON-able: {type(o)}")


def _hook(d):
    if set(d) == {"__complex__"}:
        return complex(*d["__complex__"])
    return d


def jload(s):
    return json.loads(s, object_hook=_hook)


def known_findings(prop: str) -> dict[str, dict]:
    path = VERIF / "known_findings.json"
    if not path.exists():
        return {}
    data = json.loads(path.read_text())
    return {f["id"]: f for f in data.get("findings", []) if f["property"] == prop}


def regressions(prop: str, sub: str) -> list:
    """Committed cases (shrunk from earlier failures) which are run before the search."""
    path = VERIF / "regressions" / f"{prop}.json"
    if not path.exists():
        return []
    return [jload(json.dumps(r["case"])) for r in json.loads(path.read_text()) if r["sub"] == sub]


class Ctx:
    """Per-case context: classification of the case and known findings."""

    def __init__(self, known):
        self._known = known
        self.is_nontrivial = False
        self.labels = set()
        self.seen_known = set()

    def nontrivial(self, cond=True):
        if cond:
            self.is_nontrivial = True

    def label(self, *names):
        self.labels.update(names)

    def known(self, fid: str, what: str):
        """A wrong behaviour that is a listed finding; if not listed it is a violation."""
        if fid not in self._known:
            raise Violation(f"[{fid}] {what}")
        self.seen_known.add(fid)


class Sub:
    def __init__(self, name, strategy, fn, quick, thorough, fixed=None):
        self.name, self.strategy, self.fn = name, strategy, fn
        self.quick, self.thorough = quick, thorough
        self.fixed = fixed  # optional list of cases run first (deterministic, enumerated)


class Check:
    def __init__(self, prop, rule, assumptions=(), level="exploration", needs=None, shards=6,
                 exhaustive=False):
        self.prop = prop
        self.rule = rule
        self.assumptions = list(assumptions)
        self.level = level
        self.needs = needs
        self.shards = shards
        self.exhaustive = exhaustive
        self.subs: list[Sub] = []

    def sub(self, name, strategy=None, quick=500, thorough=20000, fixed=None):
        """Registers ``fn(case, ctx)``; ``strategy`` is a callable returning a Hypothesis strategy
        (evaluated lazily), ``fixed`` a callable returning a list of enumerated cases."""

        def deco(fn):
            self.subs.append(Sub(name, strategy, fn, quick, thorough, fixed))
            return fn

        return deco

    def get(self, name):
        for s in self.subs:
            if s.name == name:
                return s
        raise HarnessError(f"no sub-property {name} in {self.prop}")


# --------------------------------------------------------------------------------------------- #
# one case


def _reset_world():
    """No context left active from an earlier (failed) case."""
    from dwave.gate.circuit import CircuitContext

    for _ in range(3):
        ctx = CircuitContext.active_context
        if ctx is None:
            break
        try:
            ctx.__exit__(None, None, None)
        except Exception:
            pass
    if CircuitContext.active_context is not None:
        CircuitContext._active_context = None
    # callbacks left behind by an earlier failed case must not run in this one
    try:
        CircuitContext.on_exit_functions.clear()
    except Exception:
        pass


class Runner:
    """Executes cases of one check inside one process."""

    def __init__(self, check: Check, curfile=None):
        self.check = check
        self.known = known_findings(check.prop)
        self.cur = open(curfile, "w") if curfile else None
        self.evaluations = 0
        self.nontrivial = set()
        self.labels: dict[str, int] = {}
        self.per_sub: dict[str, int] = {}
        self.samples: dict[str, list] = {}
        self.seen_known = set()

    def execute(self, sub: Sub, case):
        """Runs one case; raises on violation."""
        enc = jdump(case)
        case = jload(enc)  # exactly what a replay would see
        if self.cur:
            self.cur.seek(0)
            self.cur.truncate()
            self.cur.write(json.dumps({"sub": sub.name, "case": enc}))
            self.cur.flush()
        _reset_world()
        ctx = Ctx(self.known)

        def on_timeout(signum, frame):
            raise CaseTimeout(f"case did not finish within {CASE_CPU_LIMIT} CPU seconds")

        old = signal.signal(signal.SIGVTALRM, on_timeout)
        signal.setitimer(signal.ITIMER_VIRTUAL, CASE_CPU_LIMIT)
        try:
            sub.fn(case, ctx)
        finally:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
            signal.signal(signal.SIGVTALRM, old)
            self.evaluations += 1
            self.per_sub[sub.name] = self.per_sub.get(sub.name, 0) + 1
            for lb in ctx.labels:
                key = f"{sub.name}:{lb}"
                self.labels[key] = self.labels.get(key, 0) + 1
            self.seen_known |= ctx.seen_known
            if ctx.is_nontrivial:
                h = hashlib.blake2b((sub.name + enc).encode(), digest_size=8).hexdigest()
                new = h not in self.nontrivial
                self.nontrivial.add(h)
                lst = self.samples.setdefault(sub.name, [])
                if new and len(enc) < 1500:
                    if len(lst) < 1:
                        lst.append({"sub": sub.name, "case": json.loads(enc)})
                    elif len(lst) < 2 and len(self.nontrivial) > 40:
                        lst.append({"sub": sub.name, "case": json.loads(enc)})


def describe(exc: BaseException) -> str:
    if isinstance(exc, Violation):
        return str(exc)
    tb = traceback.extract_tb(exc.__traceback__)
    where = "; ".join(f"{f.filename}:{f.lineno}" for f in tb[-3:])
    return f"{type(exc).__name__}: {exc} [{where}]"


def search(runner: Runner, sub: Sub, n: int, seed: int, deadline: float):
    """Property-based search for a violation of one sub-property; returns (case, msg) or None."""
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings

    chunk = min(n, 400)
    done = 0
    k = 0
    strategy = sub.strategy()
    while done < n:
        if time.monotonic() > deadline:
            return None
        m = min(chunk, n - done)
        box = {}

        @hypothesis.seed(seed * 7919 + k)
        @settings(
            max_examples=m,
            database=None,
            deadline=None,
            phases=(Phase.generate, Phase.shrink),
            suppress_health_check=list(HealthCheck),
            report_multiple_bugs=False,
            print_blob=False,
            verbosity=hypothesis.Verbosity.quiet,
        )
        @given(strategy)
        def prop(case):
            try:
                runner.execute(sub, case)
            except HarnessError:
                raise
            except Exception as exc:
                box.setdefault("first", (case, describe(exc)))
                box["last"] = (case, describe(exc))
                raise

        before = runner.evaluations
        try:
            prop()
        except HarnessError:
            raise
        except Exception:
            if "last" not in box:
                raise
            # confirm on the shrunk case, outside Hypothesis; fall back to the first failing one
            for case, msg in (box["last"], box["first"]):
                for _ in range(3):
                    try:
                        runner.execute(sub, case)
                    except HarnessError:
                        raise
                    except Exception as exc:
                        return case, describe(exc)
            case, msg = box["last"]
            return case, msg + " [not reproduced when replayed alone: depends on earlier cases]"
        ran = runner.evaluations - before
        done += m
        k += 1
        if ran < m // 2:  # strategy exhausted (small finite space)
            break
    return None


# --------------------------------------------------------------------------------------------- #
# processes


def load(prop: str) -> Check:
    mod = importlib.import_module(f"checks.{prop.lower()}")
    return mod.check


def shard_main(prop, tier, seed, shard, nshards, outdir, budget) -> int:
    import resource

    # a runaway allocation becomes a MemoryError in the case at hand
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    out = Path(outdir)
    check = load(prop)
    runner = Runner(check, out / f"{shard}.cur")
    start = time.monotonic()
    deadline = start + budget
    violation = None
    for idx, sub in enumerate(check.subs):
        fixed = regressions(prop, sub.name) + list(sub.fixed() if sub.fixed is not None else [])
        if fixed:
            for j, case in enumerate(fixed):
                if j % nshards != shard:
                    continue
                try:
                    runner.execute(sub, case)
                except HarnessError:
                    raise
                except Exception as exc:
                    violation = (sub.name, case, describe(exc))
                    break
        if violation is None and sub.strategy is not None:
            n = sub.quick if tier == "quick" else sub.thorough
            n = max(1, math.ceil(n / nshards))
            # a share of the time budget, so that every sub-property gets its turn
            left = deadline - time.monotonic()
            share = time.monotonic() + left / (len(check.subs) - idx)
            s = (seed * 1000003 + shard * 101 + idx * 10007) & 0x7FFFFFFF
            found = search(runner, sub, n, s, share)
            if found:
                violation = (sub.name, *found)
        if violation:
            break
    res = {
        "evaluations": runner.evaluations,
        "nontrivial": sorted(runner.nontrivial),
        "labels": runner.labels,
        "per_sub": runner.per_sub,
        "samples": runner.samples,
        "seen_known": sorted(runner.seen_known),
    }
    if violation:
        res["violation"] = {"sub": violation[0], "case": jdump(violation[1]), "msg": violation[2]}
    tmp = out / f"{shard}.tmp"
    tmp.write_text(json.dumps(res))
    os.replace(tmp, out / f"{shard}.json")
    return 0


def write_replay(prop, sub, enc, msg) -> Path:
    d = VERIF / "replays" / prop
    d.mkdir(parents=True, exist_ok=True)
    h = hashlib.blake2b((sub + enc).encode(), digest_size=6).hexdigest()
    path = d / f"{sub}-{h}.json"
    path.write_text(
        json.dumps({"property": prop, "sub": sub, "case": json.loads(enc), "message": msg}, indent=1)
    )
    return path


def replay_main(prop, path) -> int:
    data = json.loads(Path(path).read_text())
    check = load(data["property"])
    runner = Runner(check)
    sub = check.get(data["sub"])
    case = jload(json.dumps(data["case"]))
    try:
        runner.execute(sub, case)
    except HarnessError:
        raise
    except Exception as exc:
        traceback.print_exc()
        print(f"VIOLATION property={data['property']} replay={path}")
        print(describe(exc))
        return 1
    print("replay: the property holds on this case")
    return 0


def parent_main(prop, tier, seed, shards_override=None) -> int:
    start = time.monotonic()
    check = load(prop)
    nshards = shards_override or check.shards
    budget = float(os.environ.get("VF_BUDGET", 420 if tier == "quick" else 3300))
    tmp = tempfile.mkdtemp(prefix=f"vf-{prop}-")
    procs = {}
    merged = {"evaluations": 0, "nontrivial": set(), "labels": {}, "per_sub": {}, "samples": [],
              "seen_known": set()}
    violations = []
    errors = []
    try:
        env = dict(os.environ)
        for i in range(nshards):
            log = open(os.path.join(tmp, f"{i}.log"), "w")
            procs[i] = subprocess.Popen(
                [sys.executable, "-m", "vf.main", prop, "--tier", tier, "--seed", str(seed),
                 "--shard", str(i), "--nshards", str(nshards), "--out", tmp,
                 "--budget", str(budget)],
                cwd=VERIF, env=env, stdout=log, stderr=subprocess.STDOUT,
            )
        pending = dict(procs)
        hard = start + (820 if tier == "quick" else 4 * 3600)
        while pending and not violations and not errors:
            for i, p in list(pending.items()):
                rc = p.poll()
                if rc is None:
                    continue
                del pending[i]
                resfile = Path(tmp) / f"{i}.json"
                if rc == 0 and resfile.exists():
                    res = json.loads(resfile.read_text())
                    merged["evaluations"] += res["evaluations"]
                    merged["nontrivial"].update(res["nontrivial"])
                    for k, v in res["labels"].items():
                        merged["labels"][k] = merged["labels"].get(k, 0) + v
                    for k, v in res["per_sub"].items():
                        merged["per_sub"][k] = merged["per_sub"].get(k, 0) + v
                    if i < 2:
                        for lst in res["samples"].values():
                            merged["samples"].extend(lst)
                    merged["seen_known"].update(res["seen_known"])
                    if "violation" in res:
                        violations.append(res["violation"])
                elif rc in (-signal.SIGSEGV, -signal.SIGABRT, -signal.SIGBUS, -signal.SIGFPE,
                            -signal.SIGILL):
                    cur = (Path(tmp) / f"{i}.cur")
                    data = json.loads(cur.read_text()) if cur.exists() else {}
                    if "sub" in data:
                        violations.append({"sub": data["sub"], "case": data["case"],
                                           "msg": f"process died with signal {-rc} (native crash)"})
                    else:
                        errors.append(f"shard {i} died with signal {-rc} before its first case")
                else:
                    logtxt = (Path(tmp) / f"{i}.log").read_text()[-4000:]
                    errors.append(f"shard {i} ended with {rc}\n{logtxt}")
            if time.monotonic() > hard:
                errors.append("hard time limit reached: inconclusive")
            if pending and not violations and not errors:
                time.sleep(0.05)
    finally:
        for p in procs.values():
            if p.poll() is None:
                p.kill()
        for p in procs.values():
            p.wait()
        import shutil

        shutil.rmtree(tmp, ignore_errors=True)

    wall = time.monotonic() - start
    rc = 0
    lines = []
    if violations:
        v = violations[0]
        path = write_replay(prop, v["sub"], v["case"], v["msg"])
        print(f"# {v['sub']}: {v['msg']}")
        print(f"# case: {v['case'][:3000]}")
        lines.append(f"VIOLATION property={prop} replay={path}")
        rc = 1
    elif errors:
        print(errors[0], file=sys.stderr)
        rc = 2

    kf = known_findings(prop)
    for fid in sorted(merged["seen_known"]):
        print(f"KNOWN-FINDING: property={prop} {fid}: {kf[fid]['what']}")
    if rc == 0:
        # a listed finding that no longer shows is worth knowing about, but is not a violation
        for fid in sorted(set(kf) - merged["seen_known"]):
            print(f"note: listed finding {fid} was not observed in this run")

    if rc != 2:
        ev = {
            "property": prop,
            "tier": tier,
            "seed": seed,
            "level": check.level,
            "coverage": {
                "evaluations": merged["evaluations"],
                "distinct_nontrivial": len(merged["nontrivial"]),
                "rule": check.rule,
                "samples": merged["samples"][:12],
                "cases_per_subproperty": merged["per_sub"],
                "classes": dict(sorted(merged["labels"].items())),
                "known_findings_observed": sorted(merged["seen_known"]),
                "shards": nshards,
            },
            "assumptions": check.assumptions,
            "wall_s": round(wall, 2),
            "violations": len(violations),
        }
        (VERIF / "evidence").mkdir(exist_ok=True)
        path = VERIF / "evidence" / f"{prop}.json"
        path.write_text(json.dumps(ev, indent=1))
        print(
            f"{prop} [{tier}, seed {seed}]: {merged['evaluations']} cases, "
            f"{len(merged['nontrivial'])} distinct non-trivial, {wall:.1f} s"
        )
    for line in lines:
        print(line)
    sys.stdout.flush()
    return rc


def slug(s):
    return re.sub(r"[^A-Za-z0-9]+", "-", s)
