"""Stress driver run inside the sanitized build (see vmon/props/c38.py).

python -m vmon.san_driver GROUP SEED INDEX N LOG

Runs N seeded cases of one group in this process.  Every case is announced in LOG
before it starts, so that a sanitizer abort can be attributed to it.  The oracle is
the instrumentation: AddressSanitizer and UndefinedBehaviorSanitizer abort the
process, and the index checks compiled into the Cython kernels raise IndexError
("Out of bounds on buffer access").  Ordinary Python exceptions are refusals.
"""
import collections
import importlib
import json
import os
import shutil
import sys
import tempfile
import traceback
import warnings
import zlib

import numpy as np

OOB = ("Out of bounds on buffer access", "Memoryview is not initialized", "Buffer acquisition")


class Broken(Exception):
    pass


class Ev:
    def __init__(self, log):
        self.n = collections.Counter()
        self.log = log
        self.tmp = None

    def __call__(self, name, k=1):
        self.n[name] += int(k)

    def op(self, s):
        self.log.write("op " + s[:300].replace("\n", " ") + "\n")
        self.log.flush()


def is_oob(e):
    seen = 0
    while e is not None and seen < 10:
        if isinstance(e, IndexError) and any(o in str(e) for o in OOB):
            return True
        e = e.__cause__ or e.__context__
        seen += 1
    return False


def call(ev, name, fn, *a, **k):
    """A refused call is fine; a caught index violation is not."""
    ev(name)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return fn(*a, **k)
    except Exception as e:
        if is_oob(e):
            raise Broken(f"{name}: {type(e).__name__}: {e}") from e
        ev(name + ":refused")
        return None


# ---------------------------------------------------------------- arrays
def mangle(rng, a):
    """The same values in another memory layout, dtype or container."""
    a = np.asarray(a)
    k = rng.integers(8)
    if k == 0:
        return a.tolist()
    if k == 1:
        b = np.repeat(a, 3, axis=0)
        return b[1::3]
    if k == 2:
        return np.asfortranarray(a)
    if k == 3 and a.ndim:
        return a[::-1]
    if k == 4 and a.dtype.kind == "i":
        return a.astype(rng.choice(["i4", "u4", "u8", ">i8", "i2"]))
    if k == 4 and a.dtype.kind == "f":
        return a.astype(rng.choice(["f4", ">f8", "f8"]))
    if k == 5:
        a = a.copy()
        a.flags.writeable = False
        return a
    if k == 6:
        return tuple(a.tolist()) if a.ndim else a.item()
    return a


def size(rng):
    return int(rng.choice([0, 1, 1, 2, 3, 7, 64, 129, 1000, int(rng.integers(1, 5000))]))


# ---------------------------------------------------------------- groups
def g_bls(rng, ev):
    from pyuvdata import utils

    for _ in range(12):
        n = size(rng)
        hi = int(rng.choice([2, 255, 256, 257, 2047, 2048, 2049, 5000, 2**31 - 1]))
        a1 = rng.integers(0, hi, n)
        a2 = rng.integers(0, hi, n if rng.random() < 0.9 else size(rng))
        if n and rng.random() < 0.1:
            a1[rng.integers(n)] = rng.choice([-1, 2**31, 2**40])
        if n == 1 and rng.random() < 0.5:
            a1, a2 = int(a1[0]), int(a2[0]) if len(a2) else 0
        nt = int(rng.choice([1, 100, 256, 2048, 2049, 10**6]))
        ev.op(f"antnums_to_baseline n={n} hi={hi}")
        bl = call(ev, "antnums_to_baseline", utils.antnums_to_baseline, mangle(rng, a1), mangle(rng, a2),
                  Nants_telescope=nt, attempt256=bool(rng.integers(2)), use_miriad_convention=bool(rng.integers(2)))
        if bl is None:
            bl = rng.integers(0, 2**40, size(rng))
        ev.op(f"baseline_to_antnums n={np.size(bl)}")
        back = call(ev, "baseline_to_antnums", utils.baseline_to_antnums, mangle(rng, np.asarray(bl)), Nants_telescope=nt)
        if back is not None:
            ev("records", np.size(back[0]))
    for shape in [(2, 3), (0,), (2, 0), (0, 2)]:
        ev.op(f"baselines of shape {shape}")
        call(ev, "baseline_to_antnums", utils.baseline_to_antnums, np.ones(shape, dtype=int) * 70000, Nants_telescope=10)
        call(ev, "antnums_to_baseline", utils.antnums_to_baseline, np.ones(shape, dtype=int), np.ones(shape, dtype=int), Nants_telescope=10)


def g_coords(rng, ev):
    from pyuvdata import utils

    for _ in range(8):
        n = size(rng)
        frame = str(rng.choice(["ITRS", "MCMF"]))
        ell = None if frame == "ITRS" else str(rng.choice(["SPHERE", "GSFC", "GRAIL23", "CE-1-LAM-GEO"]))
        lat = rng.uniform(-np.pi / 2, np.pi / 2, n)
        lon = rng.uniform(-10, 10, n)
        alt = rng.uniform(-100, 5000, n)
        if n and rng.random() < 0.3:
            lat[rng.integers(n)] = rng.choice([np.pi / 2, -np.pi / 2, 0.0, np.nan, np.inf, 1e300])
        if rng.random() < 0.1:
            alt = alt[: max(0, n - 1)]
        if n == 1 and rng.random() < 0.5 and len(alt):
            lat, lon, alt = float(lat[0]), float(lon[0]), float(alt[0])
        ev.op(f"XYZ_from_LatLonAlt n={n} {frame} {ell}")
        xyz = call(ev, "XYZ_from_LatLonAlt", utils.XYZ_from_LatLonAlt, mangle(rng, lat), mangle(rng, lon), mangle(rng, alt), frame=frame, ellipsoid=ell)
        if xyz is None:
            xyz = rng.normal(size=(n, 3)) * 6.37e6
        ev.op(f"LatLonAlt_from_XYZ {np.shape(xyz)}")
        call(ev, "LatLonAlt_from_XYZ", utils.LatLonAlt_from_XYZ, mangle(rng, xyz), frame=frame, ellipsoid=ell, check_acceptability=bool(rng.integers(2)))
        c = dict(latitude=float(rng.uniform(-1.5, 1.5)), longitude=float(rng.uniform(-4, 4)), altitude=float(rng.uniform(0, 3000)))
        ev.op(f"ENU_from_ECEF {np.shape(xyz)} center {np.shape(c['latitude'])}")
        enu = call(ev, "ENU_from_ECEF", utils.ENU_from_ECEF, mangle(rng, xyz), frame=frame, ellipsoid=ell, **c)
        if enu is None:
            enu = rng.normal(size=(n, int(rng.choice([2, 3, 3, 3])))) * 100
        ev.op(f"ECEF_from_ENU {np.shape(enu)} center {np.shape(c['latitude'])}")
        call(ev, "ECEF_from_ENU", utils.ECEF_from_ENU, mangle(rng, enu), frame=frame, ellipsoid=ell, **c)
        ev("records", n)
    for sh in [(3,), (2,), (0, 3), (3, 0), (4, 2), (1, 3), (2, 3, 2), (2,), (0,)]:
        x = rng.normal(size=sh) * 6.37e6
        ev.op(f"shape {sh}")
        call(ev, "LatLonAlt_from_XYZ", utils.LatLonAlt_from_XYZ, x, check_acceptability=False)
        call(ev, "ENU_from_ECEF", utils.ENU_from_ECEF, x, latitude=0.1, longitude=0.2, altitude=3.0)
        call(ev, "ECEF_from_ENU", utils.ECEF_from_ENU, x, latitude=0.1, longitude=0.2, altitude=3.0)


def g_phasing(rng, ev):
    from pyuvdata.utils import phasing

    for _ in range(10):
        n = size(rng)
        uvw = rng.normal(size=(n, 3)) * 1000
        if rng.random() < 0.2:
            uvw = rng.normal(size=3)
        if rng.random() < 0.2:
            uvw = rng.normal(size=(n, int(rng.choice([0, 1, 2, 4]))))
        uvw = np.asarray(mangle(rng, uvw))
        ra, dec = float(rng.uniform(-7, 7)), float(rng.uniform(-2, 2))
        ev.op(f"old_uvw_calc {uvw.shape}")
        call(ev, "old_uvw_calc", phasing.old_uvw_calc, ra, dec, uvw)
        call(ev, "undo_old_uvw_calc", phasing.undo_old_uvw_calc, ra, dec, uvw)
        ev("records", n)


def g_hpx(rng, ev):
    from pyuvdata.uvbeam import _uvbeam

    for _ in range(6):
        nt, npix = int(rng.choice([0, 1, 2, 5, 19])), size(rng)
        nph = int(rng.choice([0, 1, 2, 7, 30]))
        th = np.linspace(rng.uniform(-3.5, 0), rng.uniform(0, 6.5), nt)
        ph = np.linspace(rng.uniform(-7, 0), rng.uniform(0, 13), nph)
        ev.op(f"find_healpix_indices {nt} {nph} {npix}")
        call(ev, "find_healpix_indices", _uvbeam.find_healpix_indices, th, ph, rng.uniform(0, np.pi, npix), rng.uniform(0, 2 * np.pi, npix), float(rng.uniform(0, 0.5)))
        ev("records", npix)


def g_corr(rng, ev):
    from pyuvdata.uvdata import mwa_corr_fits as m
    from pyuvdata.uvdata import _corr_fits

    # cables
    for _ in range(4):
        nant = int(rng.choice([1, 2, 128]))
        def s():
            k = rng.integers(8)
            if k == 0:
                return "EL_%d" % rng.integers(0, 1000)
            if k == 1:
                return "LMR400_%d" % rng.integers(0, 1000)
            if k == 2:
                return str(rng.integers(0, 10**6))
            if k == 3:
                return "%.*f" % (int(rng.integers(0, 40)), rng.uniform(0, 500))
            if k == 4:
                return "EL_" + "1" * int(rng.integers(0, 60))
            if k == 5:
                return "-%.3f" % rng.uniform(0, 10)
            if k == 6:
                return "EL%s" % rng.choice(["_", "", "_-5", "__7"])
            return str(rng.choice(["0", "_", "__", "1e5", "x", "EL", "E", "_EL_5", ""]))
        cab = [s() for _ in range(nant)]
        if not any(cab):
            cab[0] = "EL_3"
        kinds = "plain" if all(c.strip("_") and c not in ("EL", "EL_") for c in cab) else "odd"
        ev("cables_" + kinds)
        c = np.asarray(cab).astype(np.bytes_)
        c = c.view("uint8").reshape(c.size, c.dtype.itemsize)
        nb = int(rng.choice([0, 1, 50, 8256]))
        a1, a2 = rng.integers(0, nant, nb), rng.integers(0, nant, nb)
        ev.op(f"get_cable_len_diffs {cab[:6]} itemsize {c.shape[1]} nb {nb}")
        call(ev, "get_cable_len_diffs", _corr_fits.get_cable_len_diffs, a1, a2, c)
        ev("records", nb)
    # map
    ev.op("input_output_mapping")
    call(ev, "input_output_mapping", m.input_output_mapping)
    if rng.random() < 0.3:
        perm = rng.permutation(256)
        ants = {(a, p): int(perm[2 * a + p]) for a in range(128) for p in range(2)}
        mi = np.zeros(128 * 129 // 2 * 4, dtype=np.int32)
        cj = np.full(128 * 129 // 2 * 4, False, dtype=np.bool_)
        ev.op("generate_map")
        call(ev, "generate_map", _corr_fits.generate_map, ants, mi, cj)
        if sorted(set(mi.tolist())) != list(range(128 * 129 * 2)) and not (mi.min() >= 0 and mi.max() < 128 * 129 * 2):
            raise Broken("generate_map produced indices outside the data array")
    # van vleck
    import h5py
    from pyuvdata.data import DATA_PATH

    for _ in range(3):
        n = int(rng.choice([0, 1, 2, 30, 100]))
        sig1, sig2 = rng.uniform(0.9, 4.5, n), rng.uniform(0.9, 4.5, n)
        rho = rng.uniform(-0.9, 0.9, n)
        ev.op(f"get_khat n={n}")
        # Newton's method only converges for correlations that such a quantizer can give
        khat = call(ev, "corrcorrect_simps", m.corrcorrect_simps, rho=rho, sig1=sig1, sig2=sig2)
        call(ev, "corrcorrect_vect_prime", m.corrcorrect_vect_prime, rho=rho, sig1=sig1, sig2=sig2)
        call(ev, "van_vleck_crosses_int", m.van_vleck_crosses_int, k_arr=np.zeros(0) if khat is None else khat.copy(), sig1_arr=sig1, sig2_arr=sig2, cheby_approx=False)
        call(ev, "van_vleck_autos", m.van_vleck_autos, np.abs(sig1).copy())
        ev("records", n)


def g_uvlow(rng, ev):
    """Low level Miriad files: header items and variables of every type and length."""
    from pyuvdata.uvdata import aipy_extracts as ae

    d = tempfile.mkdtemp(dir=ev.tmp)
    f = os.path.join(d, "a.uv")
    if rng.random() < 0.15:
        # dataset directories with long names
        want = int(rng.choice([200, 300, 500, 700, 900, 980, 990, 995, 999, 1000, 1001, 1100, 2000]))
        p = d
        while want - len(p) > 240:
            p = os.path.join(p, "d" * 200)
        p = os.path.join(p, "d" * max(1, want - len(p) - 6))
        os.makedirs(p)
        f = os.path.join(p, "a.uv")
        ev("long_path")
        ev.op(f"open path of {len(f)} characters")
        t = call(ev, "uvopen_new", ae.UV, f, status="new", corrmode="r")
        if t is None:
            ev("long_path_refused")
            call(ev, "uvopen", ae.UV, f)
            shutil.rmtree(d, ignore_errors=True)
            return
        t.close()
        del t
        shutil.rmtree(f)
    corr = str(rng.choice(["r", "j"]))
    ev.op(f"open new corr={corr}")
    uv = ae.UV(f, status="new", corrmode=corr)
    hist = "h" * int(rng.choice([0, 1, 2, 79, 80, 81, 500, 4095, 4096, 40000]))
    uv["history"] = hist
    hdr = {"obstype": "mixed-auto-cross", "history": hist}
    if rng.random() < 0.5:
        for k, v in (("ngains", 5), ("nfeeds", 2), ("interval", 0.5), ("freq0", 0.15), ("nsols", 7), ("stopt", 2.5)):
            ev.op(f"header {k}")
            call(ev, "wrhd", uv.__setitem__, k, v)
            hdr[k] = v
    if rng.random() < 0.15:
        n = int(rng.choice([1, 2, 100, 1025]))
        hdr["leakage"] = (rng.normal(size=n) + 1j * rng.normal(size=n)).astype(np.complex64)
        call(ev, "wrhd", uv.__setitem__, "leakage", list(hdr["leakage"]))
        hdr["freqs"] = [2, 4, 0.1, 0.2, 8, 0.3, 0.4]
        call(ev, "wrhd", uv.__setitem__, "freqs", hdr["freqs"])
    nvar = int(rng.integers(1, 12))
    if rng.random() < 0.15:
        nvar = int(rng.choice([100, 120, 125, 126, 127, 128, 129, 140, 200, 230, 240, 250, 260, 300]))
        ev("many_variables")
    vals = {}
    uv.add_var("nchan", "i")
    uv.add_var("pol", "i")
    for i in range(nvar):
        t = str(rng.choice(["a", "i", "j", "r", "d", "c"]))
        n = int(rng.choice([1, 1, 2, 5, 64, 1000, 3000, 4096, 4097, 8192, 8193, 20000]))
        if t == "a":
            n = int(rng.choice([1, 2, 8, 100, 511, 1023, 4096, 32765, 32766, 32767, 32768, 40000]))
            v = "".join(chr(c) for c in rng.integers(33, 126, n))
        elif t == "i":
            v = rng.integers(-2**31, 2**31, n).astype(np.int32)
        elif t == "j":
            v = rng.integers(-2**15, 2**15, n).astype(np.int16)
        elif t == "r":
            v = rng.normal(size=n).astype(np.float32)
        elif t == "d":
            v = rng.normal(size=n)
        else:
            v = (rng.normal(size=n) + 1j * rng.normal(size=n)).astype(np.complex64)
        if nvar > 50:
            n = min(n, 5)
            v = v[:5]
        nm = "v%d" % i if rng.random() < 0.8 else ("x" * 7 + "%d" % (i % 10))
        if nm in vals:
            continue
        try:
            uv.add_var(nm, t)
        except Exception:
            ev("variable_refused")
            if nvar <= 50:
                raise
            break
        ev.op(f"var {nm} {t} {n}")
        if t != "a" and n == 1 and rng.random() < 0.5:
            v = v[0]
        call(ev, "wrvr", uv.__setitem__, nm, v)
        ev("var_" + t)
        vals[nm] = (t, v)
    nrec = int(rng.integers(1, 12))
    nch0 = nch = int(rng.choice([1, 2, 31, 32, 33, 64, 1024]))
    uv["nchan"] = nch
    recs = []
    for i in range(nrec):
        if i and rng.random() < 0.2:
            # the reader sizes its buffers from the first record
            nch = int(rng.integers(1, nch0 + 1))
            uv["nchan"] = nch
        uv["pol"] = int(rng.choice([-5, -6]))
        if vals and rng.random() < 0.3:
            nm = sorted(vals)[rng.integers(len(vals))]
            t, v = vals[nm]
            if t != "a" and np.size(v) > 1 or t != "a":
                k = np.size(v) if rng.random() < 0.7 else int(rng.choice([1, 2, 7, 600]))
                v = np.resize(np.atleast_1d(v), k)
                ev.op(f"rewrite {nm} {t} {k}")
                call(ev, "wrvr", uv.__setitem__, nm, v)
                vals[nm] = (t, v)
        i1, i2 = sorted(rng.integers(0, 300 if rng.random() < 0.2 else 20, 2).tolist())
        data = (rng.normal(size=nch) + 1j * rng.normal(size=nch)).astype(np.complex64)
        if rng.random() < 0.1:
            data[rng.integers(nch)] = rng.choice([np.inf, np.nan, 0, 1e30])
        if rng.random() < 0.1:
            data[:] = 0
        fl = rng.random(nch) < 0.3
        ev.op(f"write rec {i} nch {nch} ({i1},{i2})")
        pre = (rng.normal(size=3), 2457000.5 + i // 3 * 0.001, (i1, i2))
        call(ev, "uvwrite", uv.write, pre, data, fl)
        ev("records")
        recs.append({nm: np.copy(v) for nm, (t, v) in vals.items()})
    # an item with a header of its own, through the item functions
    from pyuvdata.uvdata import _miriad

    raw = []
    for i in range(int(rng.integers(0, 4))):
        t = str(rng.choice(["i", "j", "l", "r", "d", "c"]))
        v = {"i": int(rng.integers(-2**31, 2**31)), "j": int(rng.integers(-2**15, 2**15)), "l": int(rng.integers(-2**62, 2**62)),
             "r": np.float32(rng.normal()), "d": float(rng.normal()), "c": np.complex64(rng.normal() + 1j * rng.normal())}[t]
        k = int(rng.integers(1, 5))
        ev.op(f"item {t} x{k}")
        h = uv.haccess(f"item{i}", "write")
        off = _miriad.hwrite_init(h, t)
        for _ in range(k):
            off += _miriad.hwrite(h, off, v, t)
        _miriad.hdaccess(h)
        ev("item_" + t)
        raw.append((t, v, k))
    ev.op("close")
    uv.close()
    del uv
    ev.op("reopen")
    rd = call(ev, "uvopen", ae.UV, f)
    if rd is None:
        return
    for k in hdr:
        ev.op(f"rdhd {k}")
        got = call(ev, "rdhd", rd.__getitem__, k)
        if k == "history" and got is not None and got != hist:
            raise Broken(f"history read back {got[:40]!r}... ({len(got)} characters) instead of {hist[:40]!r} ({len(hist)})")
    for i, (t, v, k) in enumerate(raw):
        ev.op(f"read item {t} x{k}")
        h = rd.haccess(f"item{i}", "read")
        tt, off = _miriad.hread_init(h)
        got = []
        for _ in range(k):
            g, o = _miriad.hread(h, off, t)
            got.append(g)
            off += o
        _miriad.hdaccess(h)
        if tt != t or any(g != v for g in got):
            raise Broken(f"header item of type {t}: wrote {v!r} x{k}, read {got!r} of type {tt}")
        ev("item_judged")
    for rep in range(int(rng.integers(1, 4))):
        plain = rep == 0
        if not plain:
            for _ in range(int(rng.integers(1, 4))):
                sel = str(rng.choice(["decimate", "time", "antennae", "polarization", "auto", "clear"]))
                a, b = {"decimate": (int(rng.integers(1, 4)), 0), "time": (2457000.5, 2457000.5 + 0.001 * int(rng.integers(1, 4))),
                        "antennae": (int(rng.integers(0, 20)), int(rng.choice([-1, 3, 5, 19]))), "polarization": (int(rng.choice([-5, -6, 1])), 0),
                        "auto": (0, 0), "clear": (0, 0)}[sel]
                ev.op(f"select {sel} {a} {b}")
                call(ev, "uvselect", rd.select, sel, a, b, bool(rng.integers(2)))
                ev("select_" + sel)
        ev.op("rewind+read")
        call(ev, "uvrewind", rd.rewind)
        n = 0
        while n < 40:
            r = call(ev, "uvread", rd.read, True)
            if r is None:
                break
            n += 1
            for nm in vals:
                if rng.random() < 0.3:
                    t = vals[nm][0]
                    ev.op(f"rdvr {nm} {t}")
                    got = call(ev, "rdvr", rd.__getitem__, nm)
                    if plain and n <= len(recs):
                        want = recs[n - 1][nm]
                        small = want.itemsize * want.size < 32000 if t != "a" else len(str(want)) < 32000
                        if got is None and small or got is not None and not (str(want) == got if t == "a" else np.array_equal(np.atleast_1d(want), np.atleast_1d(got))):
                            raise Broken(f"variable {nm} of type {t} ({want.size} values) at record {n - 1}: read {str(got)[:60]!r} instead of {str(want)[:60]!r}")
                        ev("rdvr_judged")
    if rng.random() < 0.4:
        ev.op("pipe")
        rd = call(ev, "uvopen", ae.UV, f)
        out = ae.UV(os.path.join(d, "b.uv"), status="new", corrmode=str(rng.choice(["r", "j"])))
        call(ev, "init_from_uv", out.init_from_uv, rd)
        call(ev, "pipe", out.pipe, rd, append2hist="x" * int(rng.integers(0, 200)))
        out.close()
    if rng.random() < 0.3:
        ev.op("append")
        ap = call(ev, "uvopen", ae.UV, f, status="append", corrmode=corr)
        if ap is not None:
            ap.close()
    shutil.rmtree(d, ignore_errors=True)


def _tree(path):
    return [os.path.join(path, n) for n in sorted(os.listdir(path))]


def g_truncated(rng, ev):
    """Incomplete copies of a valid Miriad dataset, each read in a forked child."""
    from vmon import core
    from vmon.props.c03 import mir_uv

    d = tempfile.mkdtemp(dir=ev.tmp)
    src = os.path.join(d, "a.uv")
    if rng.random() < 0.15:
        from pyuvdata.data import DATA_PATH

        shutil.copytree(os.path.join(DATA_PATH, str(rng.choice(["new.uvA", "zen.2456865.60537.xy.uvcRREAA"]))), src)
        ev("truncate:sample")
    else:
        uv = mir_uv(core.Ctx(rng, d))
        ev.op("write base")
        if call(ev, "write_miriad", uv.write_miriad, src, clobber=True) is None and not os.path.isdir(src):
            shutil.rmtree(d, ignore_errors=True)
            return
    for k in range(6):
        dst = os.path.join(d, f"c{k}.uv")
        if rng.random() < 0.15:
            p = d
            for _ in range(int(rng.integers(1, 5))):
                p = os.path.join(p, "d" * int(rng.integers(50, 220)))
            os.makedirs(p, exist_ok=True)
            dst = os.path.join(p, f"c{k}.uv")
            ev("truncate:long_path")
        shutil.copytree(src, dst)
        files = _tree(dst)
        f = files[rng.integers(len(files))]
        n = os.path.getsize(f)
        kind = str(rng.choice(["cut", "cut", "cut", "empty", "missing", "cut8", "cut_end"]))
        if kind == "missing":
            os.remove(f)
        else:
            to = {"cut": int(rng.integers(0, n + 1)), "empty": 0, "cut8": int(rng.integers(0, n // 8 + 1)) * 8,
                  "cut_end": max(0, n - int(rng.integers(1, 30)))}[kind]
            os.truncate(f, to)
        ev("truncate:" + os.path.basename(f))
        ev("truncate:" + kind)
        what = f"{kind} {os.path.basename(f)} {n}->{os.path.getsize(f) if os.path.exists(f) else 'none'}"
        ev.op("read " + what)
        fork_read(ev, dst, what)
        shutil.rmtree(dst, ignore_errors=True)
    shutil.rmtree(d, ignore_errors=True)


def fork_read(ev, path, what):
    from pyuvdata import UVData

    err = os.path.join(ev.tmp, "child.err")
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        try:
            import signal

            signal.alarm(60)
            fd = os.open(err, os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
            os.dup2(fd, 2)
            os.dup2(fd, 1)
            uv = UVData()
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                uv.read_miriad(path, run_check=True)
            os._exit(0)
        except BaseException as e:
            if is_oob(e):
                os.write(2, f"INDEX-VIOLATION {e!r}\n".encode())
                os._exit(99)
            os._exit(10)
    _, st = os.waitpid(pid, 0)
    txt = open(err, errors="replace").read()
    if "AddressSanitizer" in txt or "runtime error:" in txt or "INDEX-VIOLATION" in txt:
        raise Broken(f"reading a dataset with {what}: " + report(txt))
    if os.WIFSIGNALED(st):
        s = os.WTERMSIG(st)
        if s == 14:
            raise Broken(f"reading a dataset with {what}: did not terminate within 60 s")
        raise Broken(f"reading a dataset with {what}: killed by signal {s}: {txt[-300:]}")
    code = os.WEXITSTATUS(st)
    ev({0: "truncated_read:accepted", 10: "truncated_read:refused", 1: "truncated_read:exit"}.get(code, f"truncated_read:{code}"))
    if code == 1:
        ev("miriad_fatal_exit")


def report(txt):
    out = []
    for line in txt.splitlines():
        if "ERROR: AddressSanitizer" in line or "runtime error:" in line or "INDEX-VIOLATION" in line:
            out.append(line.strip())
        elif line.strip().startswith("#") and len(out) and len(out) < 7 and ("/src/" in line or ".pyx" in line or ".c:" in line):
            out.append(line.strip())
    return " | ".join(out)[:900] or txt[-500:]


def g_work(spec):
    prop, scen = spec.split(":")

    def run(rng, ev):
        from vmon import core

        mod = importlib.import_module(f"vmon.props.{prop}")
        scs = [s for s in mod.SCENARIOS if scen in ("*", s.name)]
        sc = scs[rng.integers(len(scs))]
        t = tempfile.mkdtemp(dir=ev.tmp)
        ctx = core.Ctx(rng, t)
        ev.op(f"{prop}:{sc.name}")
        cwd = os.getcwd()
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                sc.fn(ctx)
            ev(f"work:{prop}:{sc.name}")
        except core.Violation as e:
            # judged by that property's own check; here only memory errors count
            ev(f"work:{prop}:{sc.name}:other")
            if is_oob(e):
                raise Broken(f"{prop}:{sc.name}: {e}") from e
        except core.Skip:
            ev("work:skip")
        except Exception as e:
            if is_oob(e):
                raise Broken(f"{prop}:{sc.name}: {type(e).__name__}: {e}") from e
            ev(f"work:{prop}:{sc.name}:raised")
        finally:
            os.chdir(cwd)
            shutil.rmtree(t, ignore_errors=True)

    return run


GROUPS = {"bls": g_bls, "coords": g_coords, "phasing": g_phasing, "hpx": g_hpx, "corr": g_corr, "uvlow": g_uvlow, "truncated": g_truncated}


def main():
    group, seed, index, n, logp = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4]), sys.argv[5]
    only = int(sys.argv[6]) if len(sys.argv) > 6 else None
    log = open(logp, "w")
    ev = Ev(log)
    import pyuvdata

    assert os.path.realpath(pyuvdata.__file__).startswith(os.path.realpath(os.environ["VMON_SAN"]) + "/"), pyuvdata.__file__
    from vmon import core

    core.setup_env()
    unr = []
    sys.unraisablehook = lambda u: unr.append(u)
    ev.tmp = tempfile.mkdtemp()
    fn = GROUPS.get(group) or g_work(group)
    try:
        for k in range(n) if only is None else [only]:
            log.write(f"case {k}\n")
            log.flush()
            rng = np.random.default_rng([seed, zlib.crc32(group.encode()), index, k])
            try:
                fn(rng, ev)
                for u in unr:
                    if is_oob(u.exc_value):
                        raise Broken(f"ignored in {u.object!r}: {u.exc_value!r}")
                    ev("unraisable")
                unr.clear()
                ev("cases")
            except Broken as e:
                log.write("BROKEN " + json.dumps({"k": k, "msg": str(e), "tb": traceback.format_exc()[-1500:]}) + "\n")
                log.flush()
    finally:
        shutil.rmtree(ev.tmp, ignore_errors=True)
    log.write("DONE " + json.dumps(dict(ev.n)) + "\n")
    log.close()


if __name__ == "__main__":
    main()
