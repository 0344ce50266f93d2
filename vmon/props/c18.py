"""C18: equality and copies.

Frozen table of documented tolerances (vmon/tols.json): the oracle decides by
itself whether a single difference is beyond tolerance, then asks the library
in both directions, through == and !=, with and without the optional
parameters, and checks that neither operand changed.
"""
import contextlib
import copy
import io
import json
import math
import os
import pickle

import numpy as np
from astropy import units
from astropy.coordinates import EarthLocation, SkyCoord

from vmon import canon, gen
from vmon.core import Scenario, Skip
from vmon.props.c19 import arrays, q

TOLS = json.load(open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "tols.json")))
IGNORE_NONE = {"blts_are_rectangular", "time_axis_faster_than_bls", "blt_order"}
RULE = "random object of a class, one random parameter (or telescope parameter), one random difference of known size; non-trivial: the parameter is set and the difference is representable"
REQUIRED = [f"{c}:{k}" for c in ("uv", "cal", "beam", "flag", "tel") for k in ("beyond", "within", "copy", "deepcopy", "pickle", "to_none", "shape")] + [
    "uv:telescope", "cal:telescope", "flag:telescope", "uv:meta_copy", "cal:meta_copy", "uv:dict", "cal:dict", "flag:nohistory", "nan:both", "nan:one", "uv:opt_only", "cal:opt_only", "beam:opt_only", "uv:filename", "uv:class",
    "kind:int", "kind:float", "kind:complex", "kind:bool", "kind:str", "kind:strs", "kind:loc", "param:skycoord", "param:quantity", "param:recarray", "param:scalar", "param:array", "param:strs", "param:dict",
]


def eq(a, b, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return q(a.__eq__, b, **k)


def ne(a, b, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return q(a.__ne__, b, **k)


def make(rng, cls):
    if cls == "uv":
        x = q(gen.make_uvdata, rng)
        if rng.integers(2):
            x.extra_keywords = {"k1": 3, "k2": 2.5, "k3": "abc", "k4": True, "Mixed": [1.0, 2.0]}
        if rng.integers(4) == 0:
            x.scan_number_array = rng.integers(1, 4, x.Nblts)
        if rng.integers(4) == 0:
            x.eq_coeffs = rng.normal(size=(x.telescope.Nants, x.Nfreqs))
            x.eq_coeffs_convention = "divide"
        if rng.integers(3) == 0:
            x.set_rectangularity(force=True)
    elif cls == "cal":
        x = q(gen.make_uvcal, rng)
    elif cls == "beam":
        x = q(gen.make_beam, rng)
        if rng.integers(3) == 0:
            x.receiver_temperature_array = rng.uniform(10, 400, x.Nfreqs)
            x.loss_array = rng.uniform(0, 1, x.Nfreqs)
            x.mismatch_array = rng.uniform(0, 1, x.Nfreqs)
            x.s_parameters = rng.normal(size=(4, x.Nfreqs))
            x.reference_impedance = 50.0
        if rng.integers(3) == 0:
            x.extra_keywords = {"a": 1, "B": "x"}
    elif cls == "flag":
        x = q(gen.make_uvflag, rng)
    else:
        x = gen.make_telescope(rng)
    return x


CLS = {"uv": "UVData", "cal": "UVCal", "beam": "UVBeam", "flag": "UVFlag", "tel": "Telescope"}


def bump(rng, v, tol, within):
    """a value differing from the number v by a known multiple of the tolerance, or None"""
    rt, at = tol
    if isinstance(v, (bool, np.bool_)):
        return None if within else (not v)
    if isinstance(v, (int, np.integer)):
        return None if within else type(v)(v + 1)
    if isinstance(v, (complex, np.complexfloating)):
        t = at + rt * abs(v)
    else:
        t = at + rt * abs(float(v))
    f = 10 ** rng.uniform(-3, -1) if within else 10 ** rng.uniform(0.7, 5)
    d = t * f
    if isinstance(v, (complex, np.complexfloating)):
        d = d * np.exp(2j * np.pi * rng.uniform())
    elif rng.integers(2):
        d = -d
    w = type(v)(v + d) if not isinstance(v, np.generic) else v.dtype.type(v + d)
    real = abs(complex(w) - complex(v))
    # what the value type could represent
    if within and not (0 < real < 0.3 * t):
        return None
    if not within:
        if not (real > 3 * t and real > 3 * (at + rt * abs(complex(w)))):
            return None
        if not math.isfinite(real):
            return None
    return w


def mutate(rng, v, tol, within, ctx=None):
    """(new value, description) or None; v is never changed"""
    if isinstance(v, np.ndarray) and v.dtype.kind in "US":
        if within or v.size == 0:
            return None
        w = np.array(v, dtype=object).astype("<U40")
        i = int(rng.integers(w.size))
        how = gen.pick(rng, ["change", "swap"])
        if how == "swap" and w.size > 1 and len(set(w.tolist())) > 1:
            j = int(rng.choice([j for j in range(w.size) if w.flat[j] != w.flat[i]] or [i]))
            w.flat[i], w.flat[j] = w.flat[j], w.flat[i]
        else:
            w.flat[i] = str(w.flat[i]) + "x"
        if np.array_equal(w, v):
            return None
        return w, "kind:strs", f"[{i}]"
    if isinstance(v, np.ndarray) and v.dtype.kind in "biufc":
        if v.size == 0:
            return None
        w = v.copy()
        i = int(rng.integers(w.size))
        nv = bump(rng, w.flat[i], tol, within)
        if nv is None or not np.isfinite(w.flat[i]):
            return None
        w.flat[i] = nv
        if w.flat[i] == v.flat[i]:
            return None
        return w, "kind:" + {"b": "bool", "i": "int", "u": "int", "f": "float", "c": "complex"}[v.dtype.kind], f"[{np.unravel_index(i, w.shape)}] {v.flat[i]} -> {w.flat[i]}"
    if isinstance(v, str):
        return None if within else (v + "x", "kind:str", "")
    if isinstance(v, dict):
        if within:
            return None
        w = copy.deepcopy(v)
        how = gen.pick(rng, ["add", "drop", "change", "rename"])
        ks = list(w)
        if not ks or how == "add":
            w["zz_new" if not ks or isinstance(ks[0], str) else 987] = copy.deepcopy(w[ks[0]]) if ks else 3
            return w, "dict", "add"
        k = ks[int(rng.integers(len(ks)))]
        if how == "drop":
            del w[k]
            return w, "dict", f"drop {k}"
        if how == "rename":
            w["zz_other" if isinstance(k, str) else 988] = w.pop(k)
            return w, "dict", f"rename {k}"
        if w[k] is None:
            w[k] = 1.0
            return w, "dict", f"{k} None -> 1"
        m = mutate(rng, w[k], (1e-5, 1e-8), within)
        if m is None:
            w[k] = None
            return w, "dict", f"{k} -> None"
        if isinstance(w[k], (int, np.integer)) and not isinstance(w[k], (bool, np.bool_)):
            w[k] = w[k] * 2 + 1
        else:
            w[k] = m[0]
        return w, "dict", f"{k} {m[2]}"
    if isinstance(v, (list, tuple)):
        if within or not len(v) or not all(isinstance(s, str) for s in v):
            return None
        w = list(v)
        i = int(rng.integers(len(w)))
        w[i] = w[i] + "x"
        return type(v)(w), "kind:strs", f"[{i}]"
    if hasattr(v, "geocentric") or hasattr(v, "selenocentric"):
        xyz = canon.loc_xyz(v)
        f = 10 ** rng.uniform(-3, -1) if within else 10 ** rng.uniform(0.5, 6)
        d = np.zeros(3)
        d[int(rng.integers(3))] = tol[1] * f
        if within and tol[1] * f < 1e-7:
            return None
        if hasattr(v, "selenocentric"):
            w = type(v).from_selenocentric(*((xyz + d) * units.m))
            w.ellipsoid = v.ellipsoid
        else:
            if not within and rng.integers(3) == 0:
                return EarthLocation.from_geocentric(*(xyz * np.array([1, -1, 1]) * units.m)), "kind:loc", "mirror"
            w = EarthLocation.from_geocentric(*((xyz + d) * units.m))
        return w, "kind:loc", f"+{d}"
    if isinstance(v, (bool, np.bool_, int, np.integer, float, np.floating, complex)):
        nv = bump(rng, v, tol, within)
        if nv is None:
            return None
        return nv, "kind:" + ("bool" if isinstance(v, (bool, np.bool_)) else "int" if isinstance(v, (int, np.integer)) else "float" if not isinstance(v, complex) else "complex"), f"{v} -> {nv}"
    return None


def verdicts(ctx, a, b, expect, what, mech, **k):
    sa, sb = canon.snap(a), canon.snap(b)
    for lhs, rhs, side in ((a, b, "a==b"), (b, a, "b==a")):
        r = eq(lhs, rhs, **k)
        ctx.check(bool(r) is expect, f"{what}: {side} gives {r}, expected {expect}", mech)
        r = ne(lhs, rhs, **k)
        ctx.check(bool(r) is (not expect), f"{what}: {side.replace('==', '!=')} gives {r}, expected {not expect}", mech + "-ne")
    for o, s, n in ((a, sa, "left"), (b, sb, "right")):
        d = canon.diff(s, canon.snap(o), exact=True)
        ctx.check(not d, f"{what}: comparing changed the {n} object: {d[:2]}", mech + "-changes")


def difference(cls, ctx):
    rng = ctx.rng
    a = make(rng, cls)
    if cls == "uv" and rng.integers(2):
        a.filename = ["some.uvh5"]
        a._filename.form = (1,)
    b = copy.deepcopy(a)
    table = TOLS[CLS[cls]]
    owner_a, owner_b, tag = a, b, cls
    if cls in ("uv", "cal", "flag") and rng.integers(4) == 0:
        owner_a, owner_b, tag = a.telescope, b.telescope, f"{cls}:telescope"
        table = TOLS["Telescope"]
    names = sorted(n for n in table if n != "telescope")
    rng.shuffle(names)
    mode = gen.pick(rng, ["beyond", "beyond", "beyond", "within", "to_none", "shape", "opt_only", "nan"])
    for n in names:
        v = getattr(owner_a, n)
        if v is None or (tag == "flag" and n in ("mode", "type")) or (tag == "cal" and n == "cal_type"):
            continue
        if n == "filename":
            if mode == "beyond" and cls == "uv" and rng.integers(2):
                owner_b.filename = ["somewhere_else.uvh5"]
                verdicts(ctx, a, b, True, f"{cls}: file name differs", f"{cls}-filename")
                ctx.ev("uv:filename")
                ctx.case(cls, "filename")
                return
            continue
        tol = table[n]
        if mode in ("beyond", "within"):
            m = mutate(rng, v, tol, mode == "within")
            if m is None:
                continue
            if isinstance(v, str) and n == "history" and rng.integers(2):
                pass
            setattr(owner_b, n, m[0])
            what = f"{tag}.{n} {m[1]} {m[2]} ({mode} tolerance {tol})"
            ctx.case(tag, n, mode, m[2])
            verdicts(ctx, a, b, mode == "within", what, f"{tag}-{n}-{mode}")
            ctx.ev(f"{cls}:{mode}")
            ctx.ev(m[1] if m[1] != "dict" else f"{cls}:dict")
            ctx.ev(tag)
            return
        if mode == "nan":
            if not (isinstance(v, np.ndarray) and v.dtype.kind in "fc" and v.size):
                continue
            i = int(rng.integers(v.size))
            w = v.copy()
            w.flat[i] = np.nan
            setattr(owner_b, n, w)
            ctx.case(tag, n, mode, i)
            verdicts(ctx, a, b, False, f"{tag}.{n} has one NaN more", f"{tag}-{n}-nan")
            ctx.ev("nan:one")
            setattr(owner_a, n, w.copy())
            verdicts(ctx, a, b, True, f"{tag}.{n} has the same NaN", f"{tag}-{n}-samenan")
            ctx.ev("nan:both")
            return
        if mode == "to_none":
            setattr(owner_b, n, None)
            ctx.case(tag, n, mode)
            verdicts(ctx, a, b, n in IGNORE_NONE and tag == "uv", f"{tag}.{n} is None in one object", f"{tag}-{n}-none")
            ctx.ev(f"{cls}:to_none")
            return
        if mode == "shape":
            if not (isinstance(v, np.ndarray) and v.ndim and v.size):
                continue
            ax = int(rng.integers(v.ndim))
            how = gen.pick(rng, ["longer", "flat", "shorter"])
            if how == "longer":
                w = np.concatenate([v, np.take(v, [-1], axis=ax)], axis=ax)
            elif how == "shorter":
                if v.shape[ax] < 2:
                    continue
                w = np.take(v, np.arange(v.shape[ax] - 1), axis=ax)
            else:
                if v.ndim < 2:
                    continue
                w = v.reshape(-1)
            setattr(owner_b, n, w)
            ctx.case(tag, n, mode, how, ax)
            try:
                verdicts(ctx, a, b, False, f"{tag}.{n} has shape {w.shape} instead of {v.shape}", f"{tag}-{n}-shape")
            except (IndexError, AttributeError):
                raise Skip("cannot compare")
            ctx.ev(f"{cls}:shape")
            return
        if mode == "opt_only":
            if cls == "flag" or tag.endswith("telescope"):
                mode = "beyond"
                continue
            m = mutate(rng, v, tol, False)
            if m is None:
                continue
            req = getattr(owner_a, "_" + n).required
            setattr(owner_b, n, m[0])
            ctx.case(tag, n, mode, m[2])
            verdicts(ctx, a, b, not req, f"{tag}.{n} ({'required' if req else 'optional'}) {m[2]}, check_extra=False", f"{tag}-{n}-required", check_extra=False)
            verdicts(ctx, a, b, True, f"{tag}.{n} allowed to fail", f"{tag}-{n}-allowed", allowed_failures=n)
            if not req:
                ctx.ev(f"{cls}:opt_only")
            return
    raise Skip("nothing to change")


def nohistory(ctx):
    rng = ctx.rng
    a = make(rng, "flag")
    b = copy.deepcopy(a)
    b.history = b.history + " more history"
    verdicts(ctx, a, b, False, "flag history differs", "flag-history")
    verdicts(ctx, a, b, True, "flag history differs, not checked", "flag-nohistory", check_history=False)
    b.history = a.history
    if a.label is not None:
        b.label = a.label + "x"
        verdicts(ctx, a, b, False, "flag label differs, history not checked", "flag-nohistory-label", check_history=False)
    ctx.ev("flag:nohistory")
    ctx.case("nohistory", a.history[:40], a.type, a.mode)


def classes(ctx):
    rng = ctx.rng
    o = {c: make(rng, c) for c in ("uv", "cal", "beam", "flag", "tel")}
    for c in o:
        for d in o:
            if c != d:
                ctx.check(not eq(o[c], o[d]), f"a {c} equals a {d}", "class-eq")
                ctx.check(ne(o[c], o[d]), f"a {c} does not differ from a {d}", "class-ne")
        for z in (None, 3, "x", [1]):
            ctx.check(not eq(o[c], z), f"a {c} equals {z!r}", "class-eq")
    ctx.ev("uv:class")
    ctx.case("classes", gen_sig(o["uv"]))


def gen_sig(x):
    return str([(p, np.shape(getattr(x, p))) for p in ("data_array", "freq_array") if hasattr(x, p)])


def scribble(rng, x):
    """change everything reachable from x in place"""
    for _, arr in arrays(x):
        if not arr.flags.writeable or arr.size == 0:
            continue
        if arr.dtype.kind == "b":
            np.logical_not(arr, out=arr)
        elif arr.dtype.kind in "iufc":
            arr[...] = arr.dtype.type(7) if arr.dtype.kind != "c" else 7 + 7j
        elif arr.dtype.kind in "US":
            arr[...] = "Q"
    for k, v in list(vars(x).items()):
        v = getattr(v, "value", v)
        for c in [v] + ([w for w in v.values()] if isinstance(v, dict) else []):
            if isinstance(c, dict):
                c["scribble"] = 1
            elif isinstance(c, list):
                c.append("scribble")
        if type(v).__module__.startswith("pyuvdata") and hasattr(v, "antenna_numbers"):
            v.name = "SCRIBBLE"


def copies(cls, ctx):
    rng = ctx.rng
    a = make(rng, cls)
    if cls != "tel" and rng.integers(2):
        a.filename = ["one.file", "two.file"]
        a._filename.form = (2,)
    if cls == "uv" and rng.integers(2):
        # populate the caches
        bl = int(a.baseline_array[0])
        a.antpair2ind(int(a.ant_1_array[0]), int(a.ant_2_array[0]))
        a.get_data(bl)
    before = canon.snap(a)
    how = gen.pick(rng, ["copy", "deepcopy", "pickle"] + (["meta_copy"] * 2 if cls in ("uv", "cal") else []))
    if how == "copy":
        b = a.copy()
    elif how == "deepcopy":
        b = copy.deepcopy(a)
    elif how == "pickle":
        b = pickle.loads(pickle.dumps(a))
    else:
        b = a.copy(metadata_only=True)
    ctx.case(cls, how, gen_sig(a), str(before.get("history"))[:30])
    ctx.check(type(b) is type(a), f"{cls}: {how} has type {type(b)}", f"{cls}-{how}-type")
    after = canon.snap(b)
    data = {"uv": ("data_array", "flag_array", "nsample_array"), "cal": ("gain_array", "delay_array", "flag_array", "quality_array", "total_quality_array")}.get(cls, ()) if how == "meta_copy" else ()
    d = canon.diff(before, after, ignore=data, exact=True)
    ctx.check(not d, f"{cls}: {how} differs: {d[:3]}", f"{cls}-{how}-differs")
    for p in data:
        ctx.check(getattr(b, p) is None, f"{cls}: metadata copy has {p}", f"{cls}-{how}-data")
    if how == "meta_copy":
        ctx.check(b.metadata_only is True and a.metadata_only is False, f"{cls}: metadata_only flags {a.metadata_only}, {b.metadata_only}", f"{cls}-{how}-flag")
        q(b.check)
    else:
        verdicts(ctx, a, b, True, f"{cls}: {how}", f"{cls}-{how}")
    mem = [(n, v) for n, v in arrays(a)]
    for n, v in arrays(b):
        for m, w in mem:
            ctx.check(not np.may_share_memory(v, w) or not np.shares_memory(v, w), f"{cls}: {how} shares {n} with {m}", f"{cls}-{how}-shares")
    scribble(rng, b)
    d = canon.diff(before, canon.snap(a), exact=True)
    ctx.check(not d, f"{cls}: changing the {how} changed the original: {d[:3]}", f"{cls}-{how}-leak")
    ctx.ev(f"{cls}:{how}")


def params(ctx):
    """UVParameter and its subclasses on their own"""
    from pyuvdata import parameter as uvp

    rng = ctx.rng
    kind = gen.pick(rng, ["scalar", "array", "strs", "dict", "skycoord", "quantity", "recarray"])
    tol = gen.pick(rng, [1e-3, (1e-5, 1e-8), (0, 1e-6), (1e-2, 0)])
    T = (0, tol) if np.size(tol) == 1 else tol
    ctx.ev("param:" + kind)
    within = bool(rng.integers(2))
    P = uvp.UVParameter
    if kind == "skycoord":
        n = int(rng.integers(1, 4))
        ra, dec = rng.uniform(0, 360, n), rng.uniform(-80, 80, n)
        tol = 10 ** rng.uniform(-9, -3)
        a = uvp.SkyCoordParameter("p", value=SkyCoord(ra, dec, unit="deg", frame="icrs"), form=(n,), radian_tol=tol)
        dd = np.zeros(n)
        i = int(rng.integers(n))
        dd[i] = np.degrees(tol) * (rng.uniform(0.01, 0.5) if within else rng.uniform(2, 100))
        if rng.integers(2):
            v = SkyCoord(ra, dec + dd, unit="deg", frame="icrs")
        else:
            v = SkyCoord((ra + dd / np.cos(np.radians(dec)) + 360) % 360, dec, unit="deg", frame="icrs")
        b = uvp.SkyCoordParameter("p", value=v, form=(n,), radian_tol=tol)
        exp, what = within, f"skycoord off by {np.radians(dd[i])} rad, tol {tol}"
        if rng.integers(4) == 0:
            b = uvp.SkyCoordParameter("p", value=SkyCoord(ra, dec, unit="deg", frame=gen.pick(rng, ["fk5", "galactic"])) if rng.integers(2) else SkyCoord(np.r_[ra, 1.0], np.r_[dec, 1.0], unit="deg"), form=(n,), radian_tol=tol)
            exp, what = False, "skycoord frame/shape"
    elif kind == "quantity":
        v = rng.uniform(1, 100, 4)
        i = int(rng.integers(4))
        nv = bump(rng, v[i], T, within)
        if nv is None:
            raise Skip("not representable")
        w = v.copy()
        w[i] = nv
        a = P("p", value=v * units.m, form=(4,), expected_type=units.Quantity, tols=tol)
        b = P("p", value=(w / 1000) * units.km if rng.integers(2) and T[1] == 0 else w * units.m, form=(4,), expected_type=units.Quantity, tols=tol)
        exp, what = within, f"quantity {v[i]} vs {nv} tol {T}"
        if rng.integers(5) == 0:
            b = P("p", value=v * units.s, form=(4,), expected_type=units.Quantity, tols=tol)
            exp, what = False, "quantity units"
    elif kind == "recarray":
        va = np.rec.array([("a", 1, 2.0), ("b", 2, 5.0)], dtype=[("s", "U4"), ("i", int), ("f", float)])
        vb = va.copy()
        f = gen.pick(rng, ["s", "i", "f"])
        i = int(rng.integers(2))
        if f == "s":
            vb["s"][i], within = "zz", False
        elif f == "i":
            vb["i"][i], within = 77, False
        else:
            nv = bump(rng, float(va["f"][i]), T, within)
            if nv is None:
                raise Skip("not representable")
            vb["f"][i] = nv
        a = P("p", value=va, form=(2,), expected_type=[str, int, float], tols=tol)
        b = P("p", value=vb, form=(2,), expected_type=[str, int, float], tols=tol)
        exp, what = within, f"recarray {f}"
    elif kind == "strs":
        l = ["ab", "cd", "ef"]
        m = mutate(rng, gen.pick(rng, [l, tuple(l), np.array(l)]), T, False)
        a = P("p", value=l if not isinstance(m[0], np.ndarray) else np.array(l), form=(3,), expected_type=str)
        b = P("p", value=m[0], form=(3,), expected_type=str)
        exp, what = False, f"strings {m[0]}"
    elif kind == "dict":
        d = {"a": 1.0, "b": "text", "C": [1.0, 2.0], "n": {"x": 2.0, "y": None}, "arr": rng.normal(size=3)}
        m = mutate(rng, d, T, False)
        a, b = P("p", value=d, expected_type=dict), P("p", value=m[0], expected_type=dict)
        exp, what = False, f"dict {m[2]}"
        if rng.integers(3) == 0:
            b = P("p", value=copy.deepcopy(d), expected_type=dict)
            b.value["a"] += 1e-9
            exp, what = True, "dict within tolerance"
    else:
        v = gen.pick(rng, [rng.normal() * 10 ** rng.uniform(-3, 6), complex(rng.normal(), rng.normal()), int(rng.integers(1, 10 ** 9)), bool(rng.integers(2))])
        if kind == "array":
            v = gen.pick(rng, [rng.normal(size=(3, 2)) * 1e3, rng.integers(0, 10 ** 9, 5), rng.normal(size=4) + 1j, rng.random(4) < 0.5, rng.normal(size=4).astype(np.float32)])
        m = mutate(rng, v, T, within)
        if m is None:
            raise Skip("not representable")
        et = np.asarray(v).dtype.type
        et = {"f": float, "i": int, "c": complex, "b": bool}[np.dtype(et).kind]
        a = P("p", value=v, form=np.shape(v), expected_type=et, tols=tol)
        b = P("p", value=m[0], form=np.shape(v), expected_type=et, tols=tol)
        exp, what = within, f"{kind} {m[2]} tol {T}"
    ctx.case(kind, what)
    for l, r, s in ((a, b, "a,b"), (b, a, "b,a")):
        x = eq(l, r)
        ctx.check(bool(x) is exp, f"parameter {what}: {s} equal gives {x}", f"param-{kind}")
        ctx.check(bool(ne(l, r)) is not exp, f"parameter {what}: {s} != gives {not exp}", f"param-{kind}-ne")
    for l in (a, b):
        ctx.check(bool(eq(l, copy.deepcopy(l))), f"parameter {what} is not equal to its copy", f"param-{kind}-self")
        n = copy.deepcopy(l)
        n.value = None
        ctx.check(not eq(l, n) and not eq(n, l), f"parameter {what} equals an unset one", f"param-{kind}-none")


def mk(f, c):
    return lambda ctx: f(c, ctx)


SCENARIOS = [Scenario(f"difference_{c}", mk(difference, c), n, 10 * n) for c, n in (("uv", 700), ("cal", 500), ("beam", 400), ("flag", 400), ("tel", 250))] + [
    Scenario(f"copies_{c}", mk(copies, c), n, 8 * n) for c, n in (("uv", 120), ("cal", 120), ("beam", 80), ("flag", 80), ("tel", 60))] + [
    Scenario("nohistory", nohistory, 40, 200), Scenario("classes", classes, 8, 40), Scenario("params", params, 800, 8000)]
