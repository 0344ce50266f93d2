"""Runner: executes seeded cases against the real code, collects monitor events.

A property module (vmon/props/cXX.py) exports

  RULE       how cases are made / what makes one non-trivial
  SCENARIOS  list of Scenario(name, fn, quick=N, thorough=M)
  REQUIRED   (optional) event names that must be observed, else inconclusive

A case is (scenario, index); its only source of randomness is
numpy.random.default_rng([seed, crc(property/scenario), index]).
"""
from __future__ import annotations

import collections
import json
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings
import zlib
from dataclasses import dataclass
from typing import Callable

import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.environ.get("VMON_EVID") or os.path.join(VERIF, "evidence")
FAILFAST = bool(os.environ.get("VMON_FAILFAST"))  # development only: stop at the first violation


class Violation(Exception):
    def __init__(self, msg, mech=None):
        super().__init__(msg)
        self.mech = mech


class Skip(Exception):
    pass


class CaseTimeout(BaseException):
    pass


@dataclass
class Scenario:
    name: str
    fn: Callable
    quick: int
    thorough: int


class Ctx:
    """What a scenario sees: event counters, trace log and the verdict calls."""

    def __init__(self, rng, tmp):
        self.rng = rng
        self.tmp = tmp
        self.events = collections.Counter()
        self.trace = []
        self.sig = []
        self.findings = []

    def ev(self, name, n=1):
        self.events[name] += n

    def log(self, *parts):
        self.trace.append(" ".join(_short(p) for p in parts))

    def case(self, *parts):
        """Describe the case; also its distinctness signature."""
        self.sig.append("|".join(_short(p) for p in parts))

    def check(self, cond, msg, mech=None):
        self.events["oracle_evaluations"] += 1
        if not cond:
            raise Violation(msg() if callable(msg) else msg, mech)

    def fail(self, msg, mech=None):
        self.events["oracle_evaluations"] += 1
        raise Violation(msg, mech)

    def finding(self, mech, msg):
        """A violation whose mechanism was recognised; reported against the known
        findings file, and a violation if it is not listed there."""
        self.events["oracle_evaluations"] += 1
        self.findings.append((mech, msg))

    def same(self, what, a, b, mech=None):
        """a and b: results of vmon.canon.diff -> list; or direct compare."""
        self.events["oracle_evaluations"] += 1
        d = a if b is None else None
        if d:
            raise Violation(f"{what}: {d[:6]}", mech)

    def raises(self, exc, fn, what):
        self.events["oracle_evaluations"] += 1
        try:
            fn()
        except exc as e:
            return e
        raise Violation(f"{what}: expected {exc}, nothing was raised")

    def path(self, name):
        return os.path.join(self.tmp, name)


def _short(p):
    if isinstance(p, np.ndarray):
        return np.array2string(p, threshold=12, precision=6)
    s = str(p)
    return s if len(s) < 200 else s[:200] + "..."


def _alarm(signum, frame):
    raise CaseTimeout()


def setup_env():
    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    import logging

    logging.disable(logging.CRITICAL)
    from astropy.utils import iers

    iers.conf.auto_download = False
    iers.conf.auto_max_age = None
    iers.conf.iers_degraded_accuracy = "ignore"


class _Quiet:
    """Send the code's own prints to /dev/null."""

    def __enter__(self):
        self.old = os.dup(1)
        self.nul = os.open(os.devnull, os.O_WRONLY)
        sys.stdout.flush()
        os.dup2(self.nul, 1)

    def __exit__(self, *a):
        sys.stdout.flush()
        os.dup2(self.old, 1)
        os.close(self.old)
        os.close(self.nul)


def run_case(pid, sc, index, seed, case_timeout=180):
    t0 = time.time()
    rng = np.random.default_rng([seed, zlib.crc32(f"{pid}/{sc.name}".encode()), index])
    tmp = tempfile.mkdtemp(prefix=f"vmon_{pid}_")
    ctx = Ctx(rng, tmp)
    out = {"scenario": sc.name, "index": index, "status": "ok", "msg": "", "mech": None}
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(case_timeout)
    cwd = os.getcwd()
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            sc.fn(ctx)
    except Skip as e:
        out["status"] = "skip"
        out["msg"] = str(e)
    except Violation as e:
        out["status"] = "violation"
        out["msg"] = str(e)
        out["mech"] = e.mech
    except CaseTimeout:
        out["status"] = "timeout"
    except (MemoryError, KeyboardInterrupt):
        out["status"] = "error"
        out["msg"] = traceback.format_exc()[-1500:]
    except OSError as e:
        if e.errno in (28, 24, 12):
            out["status"] = "error"
        else:
            out["status"] = "violation"
        out["msg"] = "unexpected exception: " + traceback.format_exc()[-2500:]
    except Exception:
        out["status"] = "violation"
        out["msg"] = "unexpected exception: " + traceback.format_exc()[-2500:]
    finally:
        signal.alarm(0)
        os.chdir(cwd)
        shutil.rmtree(tmp, ignore_errors=True)
    out["wall"] = round(time.time() - t0, 1)
    out["events"] = dict(ctx.events)
    out["sig"] = " || ".join(ctx.sig)
    out["trace"] = ctx.trace[-40:]
    out["findings"] = ctx.findings
    return out


def _worker(pid, cases, seed, deadline, fd, timeout):
    f = os.fdopen(fd, "w")
    with _Quiet():
        for sc, i in cases:
            if time.time() > deadline:
                break
            f.write(json.dumps({"start": [sc.name, i]}) + "\n")
            f.flush()
            r = run_case(pid, sc, i, seed, timeout)
            f.write(json.dumps(r, default=str) + "\n")
            f.flush()
    f.close()


def load_known(pid):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return {}
    with open(p) as f:
        d = json.load(f)
    return {
        k["mechanism"]: k for k in d.get("findings", []) if k["property"] == pid
    }


def run_property(pid, mod, tier, seed, level, nproc=None, limit=None, scale=1.0, only=None):
    t0 = time.time()
    setup_env()
    nproc = nproc or min(8, os.cpu_count() or 1)
    limit = limit or (float(os.environ.get("VMON_LIMIT", 480 if tier == "quick" else 3300)))
    deadline = t0 + limit
    case_timeout = getattr(mod, "CASE_TIMEOUT", 120)
    cases = []
    for sc in mod.SCENARIOS:
        if only and sc.name not in only:
            continue
        n = sc.quick if tier == "quick" else sc.thorough
        n = max(1, int(n * scale))
        cases += [(sc, i) for i in range(n)]
    # interleave scenarios so that every worker sees every kind of case
    order = np.random.default_rng(12345).permutation(len(cases))
    cases = [cases[i] for i in order]
    if hasattr(mod, "setup"):
        try:
            mod.setup(tier, seed)
        except Exception:
            traceback.print_exc()
            print(f"INCONCLUSIVE property={pid}: the set-up of the check failed")
            return 3
    nproc = min(nproc, len(cases))
    procs = []
    for w in range(nproc):
        r, wfd = os.pipe()
        pid_ = os.fork()
        if pid_ == 0:
            os.close(r)
            try:
                _worker(pid, cases[w::nproc], seed, deadline, wfd, case_timeout)
            except BaseException:
                traceback.print_exc()
                os._exit(70)
            os._exit(0)
        os.close(wfd)
        procs.append((pid_, r))
    results = []
    bufs = {r: b"" for _, r in procs}
    import select

    open_fds = {r for _, r in procs}
    while open_fds:
        rl, _, _ = select.select(list(open_fds), [], [], 5)
        for r in rl:
            d = os.read(r, 1 << 16)
            if not d:
                open_fds.discard(r)
                os.close(r)
            else:
                bufs[r] += d
                if FAILFAST and (b'"status": "violation"' in d or (b'"findings": [["' in d and not load_known(pid))):
                    for p, _ in procs:
                        os.kill(p, signal.SIGTERM)
    for p, r in procs:
        _, st = os.waitpid(p, 0)
        last = None
        for line in bufs[r].decode(errors="replace").splitlines():
            try:
                o = json.loads(line)
            except ValueError:
                continue
            if "start" in o:
                last = o["start"]
            else:
                results.append(o)
                last = None
        if os.WIFSIGNALED(st) and last is not None:
            sig = os.WTERMSIG(st)
            crash = sig in (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGFPE, signal.SIGILL)
            results.append({
                "scenario": last[0], "index": last[1],
                "status": "violation" if crash else "error",
                "msg": f"process died of signal {sig} inside the code under test",
                "mech": None, "events": {"process_crash": 1}, "sig": "", "trace": [],
                "findings": [],
            })
        elif last is not None or (os.WIFEXITED(st) and os.WEXITSTATUS(st) not in (0,)):
            code = os.WEXITSTATUS(st) if os.WIFEXITED(st) else -1
            results.append({
                "scenario": last[0] if last else "?", "index": last[1] if last else -1,
                # a C-level exit() in the library under test kills the interpreter
                "status": "violation" if (last and code != 70) else "error",
                "msg": f"process exited with status {code} inside the code under test",
                "mech": None, "events": {"process_exit": 1}, "sig": "", "trace": [],
                "findings": [],
            })
    return finish(pid, mod, tier, seed, level, results, time.time() - t0, len(cases))


def finish(pid, mod, tier, seed, level, results, wall, planned):
    known = load_known(pid)
    events = collections.Counter()
    by_sc = collections.Counter()
    status = collections.Counter()
    sigs = set()
    viol = []
    kf = collections.Counter()
    kf_example = {}
    samples = []
    for r in results:
        status[r["status"]] += 1
        by_sc[r["scenario"]] += 1
        events.update(r["events"])
        if r["status"] == "ok" and r["sig"]:
            if r["sig"] not in sigs and len(samples) < 5 and r["index"] < 50:
                samples.append({"scenario": r["scenario"], "index": r["index"],
                                "case": r["sig"][:600], "trace": r["trace"][:6]})
            sigs.add(r["sig"])
        for mech, msg in r.get("findings", []):
            if mech in known:
                kf[mech] += 1
                kf_example.setdefault(mech, (r, msg))
            else:
                v = dict(r)
                v["status"] = "violation"
                v["msg"] = msg
                v["mech"] = mech
                viol.append(v)
        if r["status"] == "violation":
            if r["mech"] and r["mech"] in known:
                kf[r["mech"]] += 1
                kf_example.setdefault(r["mech"], (r, r["msg"]))
            else:
                viol.append(r)
    skip_msgs = collections.Counter(r["msg"] for r in results if r["status"] == "skip")
    missing = [e for e in getattr(mod, "REQUIRED", []) if events.get(e, 0) == 0]
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": level,
        "coverage": {
            "evaluations": len(results),
            "distinct_nontrivial": len(sigs),
            "rule": mod.RULE,
            "samples": samples,
            "planned_cases": planned,
            "status": dict(status),
            "cases_by_scenario": dict(by_sc),
            "events_observed": dict(sorted(events.items())),
            "timeouts": [f"{r['scenario']}#{r['index']}" for r in results if r["status"] == "timeout"],
            "slowest_s": sorted(((r.get("wall", 0), f"{r['scenario']}#{r['index']}") for r in results), reverse=True)[:12],
            "skips": dict(skip_msgs.most_common(20)),
            "known_findings_seen": dict(kf),
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(wall, 2),
        "violations": len(viol),
    }
    os.makedirs(os.path.join(EVID, "replay"), exist_ok=True)
    with open(os.path.join(EVID, f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print(f"{pid} tier={tier} seed={seed}: {len(results)}/{planned} cases, "
          f"{len(sigs)} distinct, {events['oracle_evaluations']} oracle evaluations, "
          f"status={dict(status)}, wall={wall:.1f}s")
    for mech in sorted(kf):
        print(f"KNOWN-FINDING: property={pid} {mech}: {known[mech]['what']} "
              f"(seen {kf[mech]}x this run)")
    if viol:
        # group for the reader; every group gets one replay file
        groups = {}
        for v in viol:
            import re

            last = (v["msg"].strip().splitlines() or [""])[-1][:60]
            key = (v["scenario"], (v["mech"] or "")[:80], re.sub(r"[-0-9.e+]+", "#", last))
            groups.setdefault(key, []).append(v)
        for n, (key, vs) in enumerate(sorted(groups.items(), key=lambda kv: -len(kv[1]))):
            v = min(vs, key=lambda r: r["index"])
            rp = os.path.join(EVID, "replay", f"{pid}-{v['scenario']}-{v['index']}-s{seed}.json")
            with open(rp, "w") as f:
                json.dump({"property": pid, "seed": seed, "scenario": v["scenario"],
                           "index": v["index"], "msg": v["msg"], "mech": v["mech"],
                           "case": v["sig"], "trace": v["trace"]}, f, indent=1, default=str)
            print(f"VIOLATION property={pid} replay={rp}")
            print(f"   [{v['scenario']}#{v['index']}] x{len(vs)} mech={v['mech']} {v['msg'][-700:]}")
            if n >= int(os.environ.get("VMON_MAXGROUPS", "8")) - 1:
                print(f"   ... {len(groups) - n - 1} more groups")
                break
        return 1
    bad = status["error"]
    if missing:
        print(f"INCONCLUSIVE property={pid}: required events never observed: {missing}")
        return 3
    if bad or status["timeout"] > 0.05 * max(1, len(results)):
        print(f"INCONCLUSIVE property={pid}: {bad} harness errors, {status['timeout']} timeouts")
        for r in results:
            if r["status"] == "error":
                print(r["scenario"], r["index"], r["msg"][-1500:])
                break
        return 3
    if status["ok"] < 0.3 * len(results) or not results:
        print(f"INCONCLUSIVE property={pid}: too few completed cases")
        return 3
    return 0


def replay(pid, mod, path):
    setup_env()
    with open(path) as f:
        d = json.load(f)
    if hasattr(mod, "setup"):
        mod.setup("quick", d["seed"])
    for sc in mod.SCENARIOS:
        if sc.name == d["scenario"]:
            r = run_case(pid, sc, d["index"], d["seed"], 600)
            print(json.dumps(r, indent=1, default=str))
            bad = r["status"] == "violation" or r["findings"]
            if bad:
                print(f"VIOLATION property={pid} replay={path}")
            return 1 if bad else 0
    print("no such scenario")
    return 2
