"""C38 Native code stays inside its buffers.

setup() compiles a copy of the tree's extensions with AddressSanitizer, UndefinedBehaviorSanitizer,
Cython index checks and pattern-initialised automatic variables; every case is one process of
vmon/san_driver.py running a batch of seeded stress cases in that build.
"""
import json
import os
import re
import shutil
import signal
import subprocess
import sys

from vmon import core
from vmon.core import Scenario
from vmon.san_driver import report

RULE = (
    "each case is one process of the sanitized build working through a batch of seeded stress cases: kernels called with arrays of every size, layout, dtype and shape; Miriad items and variables of every type and length "
    "(and up to more variables and longer paths than fit) written, read back, selected, piped and appended to; incomplete copies of valid Miriad datasets read in forked children; and the workloads of the other properties that reach "
    "the extensions. The sanitizers, the index checks and the comparison of values written and read decide. non-trivial = distinct (group, batch)"
)
LEVEL = "exploration"
CASE_TIMEOUT = 600
ASSUMPTIONS = [
    "a Miriad library error that ends in exit(1) is counted (miriad_fatal_exit), not judged",
    "numpy, h5py, casacore, astropy_healpix and the Python interpreter are not instrumented",
]
FLAGS = "-fsanitize=address,undefined -fno-sanitize=vptr -fno-sanitize-recover=undefined -ftrivial-auto-var-init=pattern -fno-omit-frame-pointer -g -O1 -w"
SAN = None


def _gcc(name):
    return subprocess.run(["gcc", "-print-file-name=" + name], capture_output=True, text=True, check=True).stdout.strip()


def setup(tier, seed):
    global SAN
    if os.environ.get("VMON_SAN_TREE"):
        SAN = os.environ["VMON_SAN_TREE"]
        return
    src = os.path.realpath(os.environ.get("VMON_SRC", "/repo/src"))
    repo = os.path.dirname(src)
    top = os.path.join(os.environ.get("TMPDIR", "/tmp"), "san")
    t = os.path.join(top, "t")
    os.makedirs(t)
    data = os.path.join(src, "pyuvdata", "data")

    def ignore(d, names):
        return [n for n in names if n == "__pycache__" or n.endswith((".so", ".pyc")) or (d == os.path.join(src, "pyuvdata") and n == "data")]

    shutil.copytree(os.path.join(src, "pyuvdata"), os.path.join(t, "src", "pyuvdata"), ignore=ignore)
    os.symlink(data, os.path.join(t, "src", "pyuvdata", "data"))
    for f in ("setup.py", "pyproject.toml", "README.md", "MANIFEST.in"):
        if os.path.exists(os.path.join(repo, f)):
            shutil.copy(os.path.join(repo, f), t)
    npyx = 0
    for d, _, fs in os.walk(os.path.join(t, "src")):
        for f in fs:
            p = os.path.join(d, f)
            if f.endswith(".pyx"):
                npyx += 1
                s = open(p).read()
                s = re.sub(r"boundscheck\s*\(\s*False\s*\)", "boundscheck(True)", s)
                s = re.sub(r"boundscheck\s*=\s*False", "boundscheck=True", s)
                open(p, "w").write(s)
                for g in (".c", ".cpp"):
                    if os.path.exists(p[:-4] + g):
                        os.remove(p[:-4] + g)
    env = dict(os.environ, CFLAGS=FLAGS, LDFLAGS="-fsanitize=address,undefined")
    env.pop("PYTHONPATH", None)
    with open(os.path.join(top, "build.log"), "w") as log:
        rc = subprocess.run([sys.executable, "setup.py", "-q", "build_ext", "--inplace", "--force", "-j", "8"], cwd=t, env=env, stdout=log, stderr=subprocess.STDOUT).returncode
    sos = [f for d, _, fs in os.walk(os.path.join(t, "src")) for f in fs if f.endswith(".so")]
    if rc or len(sos) < npyx:
        print(open(os.path.join(top, "build.log"), errors="replace").read()[-3000:])
        raise RuntimeError("the sanitized build failed")
    shutil.rmtree(os.path.join(t, "build"), ignore_errors=True)
    SAN = os.path.join(t, "src")


def san_env():
    env = dict(os.environ)
    env.update(
        VMON_SAN=SAN, PYTHONPATH=SAN + ":" + core.VERIF, PYTHONMALLOC="malloc",
        ASAN_OPTIONS="detect_leaks=0:max_malloc_fill_size=65536:allocator_may_return_null=1:detect_odr_violation=0:detect_stack_use_after_return=1",
        UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1",
        LD_PRELOAD=":".join(_gcc(n) for n in ("libasan.so", "libubsan.so", "libstdc++.so")),
        OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
    )
    return env


def batch(group, n):
    def fn(ctx):
        seed = int(ctx.rng.integers(2**31))
        index = int(ctx.rng.integers(2**31))
        log = ctx.path("log")
        err = ctx.path("err")
        ctx.case(group, n, seed, index)
        env = san_env()
        env["TMPDIR"] = ctx.tmp
        with open(err, "w") as e:
            p = subprocess.Popen([sys.executable, "-m", "vmon.san_driver", group, str(seed), str(index), str(n), log],
                                 env=env, cwd=ctx.tmp, stdout=e, stderr=subprocess.STDOUT, start_new_session=True)
            try:
                rc = p.wait(timeout=CASE_TIMEOUT - 30)
            except BaseException as ex:
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                if isinstance(ex, subprocess.TimeoutExpired):
                    raise core.CaseTimeout() from None
                raise
        txt = open(err, errors="replace").read()
        lines = open(log, errors="replace").read().splitlines() if os.path.exists(log) else []
        case = op = None
        done = False
        for x in lines:
            if x.startswith("case "):
                case, op = x[5:], None
                ctx.ev("san_cases")
            elif x.startswith("op "):
                op = x[3:]
                ctx.ev("san_operations")
            elif x.startswith("BROKEN "):
                b = json.loads(x[7:])
                ctx.fail(f"{group} case {b['k']} (seed {seed}, index {index}): {b['msg']} [{op}] {b['tb'][-400:]}", mech=None)
            elif x.startswith("DONE "):
                done = True
                for k, v in json.loads(x[5:]).items():
                    ctx.ev("san:" + k, v)
        # every announced operation ran under the sanitizers to its end
        ctx.events["oracle_evaluations"] += sum(x.startswith("op ") for x in lines)
        if done and rc == 0:
            ctx.ev("batch_clean")
            return
        ctx.log(txt[-3000:])
        where = f"{group} case {case} (seed {seed}, index {index}) during [{op}]"
        if "ERROR: AddressSanitizer" in txt or "runtime error:" in txt:
            ctx.fail(f"{where}: {report(txt)}")
        if case is None:
            raise MemoryError(f"the driver did not start: rc {rc}: {txt[-1500:]}")
        if rc in (-signal.SIGKILL,) or "MemoryError" in txt:
            raise MemoryError(f"{where}: ended by signal 9: {txt[-500:]}")
        if rc < 0:
            ctx.fail(f"{where}: the process died of signal {-rc}: {txt[-500:]}")
        if "Traceback" in txt:
            raise MemoryError(f"{where}: harness error: {txt[-1500:]}")
        ctx.fail(f"{where}: the process ended with status {rc}: {txt[-500:]}")

    return fn


# group: (cases per batch, quick batches, thorough batches)
PLAN = {
    "bls": (40, 3, 40), "coords": (40, 3, 40), "phasing": (40, 2, 24), "hpx": (40, 3, 32), "corr": (20, 5, 60),
    "uvlow": (40, 10, 160), "truncated": (12, 10, 160),
    "c05:miriad": (10, 4, 40), "c03:*": (10, 4, 40), "c21:*": (20, 3, 24), "c22:*": (20, 3, 24), "c36:*": (6, 6, 60),
    "c34:*": (8, 3, 24), "c08:*": (8, 2, 24), "c12:*": (10, 2, 24), "c20:*": (8, 2, 24), "c02:*": (8, 1, 16), "c13:*": (8, 1, 16), "c39:*": (10, 2, 24),
}
SCENARIOS = [Scenario(g.replace(":", "_").replace("*", "all"), batch(g, n), q, t) for g, (n, q, t) in PLAN.items()]
REQUIRED = [
    "batch_clean", "san_operations", "san:antnums_to_baseline", "san:baseline_to_antnums", "san:XYZ_from_LatLonAlt", "san:LatLonAlt_from_XYZ", "san:ENU_from_ECEF", "san:ECEF_from_ENU",
    "san:old_uvw_calc", "san:undo_old_uvw_calc", "san:find_healpix_indices", "san:get_cable_len_diffs", "san:input_output_mapping", "san:corrcorrect_simps", "san:van_vleck_crosses_int", "san:van_vleck_autos",
    "san:var_a", "san:var_i", "san:var_j", "san:var_r", "san:var_d", "san:var_c", "san:item_judged", "san:rdvr_judged", "san:uvread", "san:pipe", "san:long_path", "san:many_variables",
    "san:select_antennae", "san:select_time", "san:truncated_read:accepted", "san:truncated_read:refused", "san:cases",
]
REQUIRED = sorted(set(REQUIRED))
