"""trybug.py SPEC.py [--notest] [--nocheck]: try planted bugs in scratch copies of /repo.

SPEC.py defines BUGS = [dict(id, property, edits=[(file, old, new), ...], needs, breaks, demo)].
For each: copy /repo, apply, build when native code changed, run the demo with and without, the
stable tests, and the property's check. Confirmed bugs are written to /verif/seeded/<id>/.
"""
import json, os, runpy, shutil, subprocess, sys, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
notest = "--notest" in sys.argv
nocheck = "--nocheck" in sys.argv
only = [a[5:] for a in sys.argv if a.startswith("--id=")]
spec = runpy.run_path(sys.argv[1])
DEMO = """#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
work=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$work"' EXIT
export XDG_CACHE_HOME=$work/cache TMPDIR=$work SCRATCH=$work PYTHONPATH=$PWD/src
mkdir -p $work/cache/astropy
"$PY" -W ignore "$here/demo.py"
"""


def sh(cmd, **k):
    return subprocess.run(["bash", "-c", cmd], capture_output=True, text=True, **k)


def demo(d, cwd):
    return sh(f"cd {cwd} && timeout 300 bash {d}/demo.sh")


for b in spec["BUGS"]:
    if only and b["id"] not in only:
        continue
    x = tempfile.mkdtemp(prefix="bug_", dir="/tmp") + "/repo"
    print("==", b["id"], b["property"], flush=True)
    try:
        sh(f"cp -a /repo {x}")
        native = False
        bad = False
        for f, old, new in b["edits"]:
            p = os.path.join(x, f)
            s = open(p).read()
            if s.count(old) != 1:
                print("  edit does not match exactly once:", f, s.count(old), repr(old[:80]))
                bad = True
                break
            open(p, "w").write(s.replace(old, new))
            native |= not f.endswith(".py")
        if bad:
            continue
        patch = sh(f"cd {x} && git diff").stdout
        if native:
            r = sh(f"cd {x} && . /opt/vp/env.sh && $PY setup.py -q build_ext --inplace -j 8")
            if r.returncode:
                print("  build failed", r.stderr[-1500:])
                continue
        d = os.path.join(os.path.dirname(x), "seed")
        os.makedirs(d)
        open(d + "/demo.sh", "w").write(DEMO)
        open(d + "/demo.py", "w").write(b["demo"])
        open(d + "/patch.diff", "w").write(patch)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
                  open(d + "/meta.json", "w"), indent=1)
        r0, r1 = demo(d, "/repo"), demo(d, x)
        ok = r0.returncode == 0 and r1.returncode != 0
        print(f"  demo: without {r0.returncode}, with {r1.returncode}", flush=True)
        if not ok:
            print("   without:", (r0.stdout + r0.stderr)[-1200:])
            print("   with:", (r1.stdout + r1.stderr)[-600:])
        else:
            print("   ", (r1.stdout + r1.stderr).strip().splitlines()[-1:])
        if not notest and ok:
            w = os.path.dirname(x)
            sh(f""". /opt/vp/env.sh; mkdir -p {w}/cache/astropy; export XDG_CACHE_HOME={w}/cache PYTHONPATH={x}/src
            $PY -W ignore -c 'from astropy.coordinates import EarthLocation; from astropy.utils import iers; EarthLocation._get_site_registry(force_download=True); iers.IERS_Auto.open()'
            cd {x}; timeout 840 $PY -m pytest -q -p no:cacheprovider -n 8 --timeout=300 --basetemp={w}/pt --continue-on-collection-errors -o junit_family=xunit2 --junitxml={w}/j.xml tests
            $PY /opt/vp/results.py {w}/out.json junit:{w}/j.xml""")
            t = json.loads(open(f"{w}/out.json").read().replace(x, "/repo"))
            st = json.load(open("/opt/vp/BASELINE.json"))["stable"]
            miss = sorted(set(st) - set(t["passed"]))
            print(f"  stable tests not passed: {len(miss)} {miss[:4]}", flush=True)
            ok = ok and not miss
        if ok and not notest:
            o = os.path.join(VERIF, "seeded", b["id"])
            shutil.rmtree(o, ignore_errors=True)
            shutil.copytree(d, o)
            print("  kept in", o)
        if not nocheck and (ok or "--force" in sys.argv):
            for p in [b["property"]] + b.get("also", []):
                r = sh(f"cd {VERIF} && VMON_SRC={x}/src VMON_NOBUILD=1 ./check.sh {p}")
                print(f"  check {p}: exit {r.returncode}", "CAUGHT" if r.returncode == 1 else "MISSED")
                print("     " + "\n     ".join(l[:220] for l in r.stdout.splitlines()[:3]), flush=True)
    finally:
        shutil.rmtree(os.path.dirname(x), ignore_errors=True)
