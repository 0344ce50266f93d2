"""C19 Out-of-place and failing operations leave their inputs unchanged."""
import copy
import warnings

import numpy as np

from pyuvdata import UVData, UVFlag
from pyuvdata.utils.apply_uvflag import apply_uvflag
from pyuvdata.utils.uvcalibrate import uvcalibrate
from vmon import canon, gen
from vmon.core import Scenario, Skip

RULE = (
    "every operation with an out-of-place form is run on generated visibility, calibration, beam and flag objects: byte-level snapshots of all inputs before and after, an "
    "overlap sanitizer (np.shares_memory over every reachable array) between result and inputs, and comparison with the in-place form; every operation is also called with "
    "argument combinations it must refuse, alone and after valid arguments, and the object is compared with its snapshot. non-trivial = distinct (operation, object, arguments)"
)
CLS = {"uv": gen.make_uvdata, "cal": gen.make_uvcal, "beam": gen.make_beam, "flag": gen.make_uvflag}
GOOD = {
    "uv": ["select_blt", "select_freq", "select_pol", "select_noop", "select_multi", "add_freq", "add_pol", "add_blt", "add_with_catalog", "concat_freq", "concat_pol", "concat_blt", "sum_vis", "diff_vis",
           "compress", "uvcalibrate", "apply_uvflag", "copy", "flag_from"],
    "cal": ["select_ant", "select_freq", "select_time", "select_jones", "select_noop", "add_ant", "add_freq", "add_time", "add_jones", "concat_ant", "concat_freq", "copy", "flag_from"],
    "beam": ["select_freq", "select_axis", "select_pol", "select_noop", "add_freq", "add_axis", "power", "pstokes", "healpix", "copy", "interp_new"],
    "flag": ["select_time", "select_freq", "select_pol", "select_noop", "add_freq", "add_time", "or", "combine", "copy", "to_baseline_src", "to_antenna_src"],
}
BAD = {
    "uv": ["select", "select_late", "add_overlap", "add_units", "add_nothing", "concat_axis", "concat_mismatch", "phase_frame", "phase_type", "reorder_blts", "reorder_freqs", "reorder_pols", "conjugate", "sum_mismatch",
           "down", "up", "freq_avg", "flexpol", "pc", "ant_pos", "set_data", "calibrate", "apply_flag", "compress", "phase_time", "setdata_shape"],
    "cal": ["select", "select_late", "add_overlap", "add_convention", "concat_axis", "concat_mismatch", "reorder_antennas", "reorder_freqs", "reorder_times", "reorder_jones", "to_gain", "flexjones"],
    "beam": ["select", "select_late", "add_overlap", "add_type", "power_of_power", "peak", "healpix", "interp"],
    "flag": ["select", "select_late", "add_overlap", "add_axis", "add_mode", "or_mode", "combine_mode", "to_waterfall", "to_baseline", "to_antenna", "to_flag", "to_metric", "collapse"],
}
REQUIRED = [f"{c}:{o}" for c in GOOD for o in GOOD[c]] + [f"{c}:bad:{o}" for c in BAD for o in BAD[c]]


def q(fn, *a, **k):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return fn(*a, **k)


def arrays(obj, path="", seen=None, out=None):
    """every ndarray reachable from an object, with its path"""
    out = [] if out is None else out
    seen = set() if seen is None else seen
    if id(obj) in seen:
        return out
    seen.add(id(obj))
    if isinstance(obj, np.ndarray):
        if obj.size and obj.dtype != object:
            out.append((path, obj.view(np.ndarray)))
    elif isinstance(obj, dict):
        for k, v in obj.items():
            arrays(v, f"{path}[{k}]", seen, out)
    elif isinstance(obj, (list, tuple)):
        for i, v in enumerate(obj):
            arrays(v, f"{path}[{i}]", seen, out)
    elif type(obj).__module__.startswith("pyuvdata"):
        if hasattr(obj, "expected_type") and hasattr(obj, "value"):
            arrays(obj.value, path, seen, out)
        else:
            for k, v in vars(obj).items():
                arrays(v, f"{path}.{k.lstrip('_')}", seen, out)
    return out


def containers(obj):
    """mutable containers (dicts, lists, telescope) reachable from an object"""
    out = {}
    for k, v in vars(obj).items():
        v = getattr(v, "value", v)
        if isinstance(v, (dict, list)) and (len(v) or isinstance(v, dict)):
            out[id(v)] = k
            if isinstance(v, dict):
                for kk, vv in v.items():
                    if isinstance(vv, (dict, list)):
                        out[id(vv)] = f"{k}[{kk}]"
        elif type(v).__name__ == "Telescope":
            out[id(v)] = k
    return out


SHARED_OK = ("allowed_failures", "coordinate_system_dict", "interpolation_function_dict", "acceptable", "expected_type")


def overlap(ctx, res, src, what):
    A = arrays(res)
    B = arrays(src)
    for pa, a in A:
        for pb, b in B:
            if np.may_share_memory(a, b) and np.shares_memory(a, b):
                ctx.fail(f"{what}: {pa} of the result is the same memory as {pb} of an input", mech="shared-memory")
    ca, cb = containers(res), containers(src)
    bad = [(ca[i], cb[i]) for i in ca if i in cb and not any(s in ca[i] for s in SHARED_OK)]
    ctx.check(not bad, lambda: f"{what}: result and input share {bad[:2]}", mech="shared-container")
    ctx.ev("overlap_checks", len(A) * len(B))


def split2(rng, n):
    p = rng.permutation(n)
    c = int(rng.integers(1, n))
    return sorted(p[:c].tolist()), sorted(p[c:].tolist())


def freq_halves(rng, obj, n):
    """two sets of channels that together are the object, whole windows where there are several"""
    spw = getattr(obj, "flex_spw_id_array", None)
    if n < 2:
        raise Skip("one channel")
    return split2(rng, n)


# ------------------------------------------------------------------ operations that must succeed
def good(cls, ctx):
    rng = ctx.rng
    op = gen.pick(rng, GOOD[cls])
    others, args = [], {}
    mk = {}
    if cls == "uv":
        mk = dict(ntimes=int(rng.integers(2, 4)), nphase=1 if op != "add_with_catalog" else 2, nspw=1 if "freq" in op else None, chans=3 if "freq" in op else None)
        if op == "uvcalibrate":
            mk.update(pols=np.array([-5, -6, -7, -8]), x_orientation="east")
        if "pol" in op:
            mk.update(pols=np.array([-5, -6, -7, -8]))
        if op == "compress":
            mk.update(nphase=1)
        x = gen.make_uvdata(rng, **mk)
        if op != "flag_from" and rng.integers(3) == 0:
            x.scan_number_array = rng.integers(0, 5, x.Nblts)
        if rng.integers(3) == 0:
            x.filename = ["a.uvh5", "b.uvh5"]
            x._filename.form = (2,)
    elif cls == "cal":
        x = gen.make_uvcal(rng, wide=False) if "freq" in op else gen.make_uvcal(rng)
    elif cls == "beam":
        mk = dict(beam_type="efield") if op in ("power", "pstokes", "healpix") else {}
        x = gen.make_beam(rng, **mk)
    else:
        x = gen.make_uvflag(rng, mode="flag" if op == "or" else "metric" if op == "combine" else None)
    sel = lambda o, **k: o.select(inplace=False, **k)
    fn = None
    if op.startswith("select"):
        kw = {}
        if op == "select_noop":
            if cls == "uv":
                kw = gen.pick(rng, [dict(freq_chans=np.arange(x.Nfreqs)), dict(blt_inds=np.arange(x.Nblts)), dict(polarizations=x.polarization_array.copy())])
            elif cls == "cal":
                kw = gen.pick(rng, [dict(antenna_nums=x.ant_array.copy()), dict(jones=x.jones_array.copy())])
            elif cls == "beam":
                kw = dict(freq_chans=np.arange(x.Nfreqs))
            else:
                kw = dict(freq_chans=np.arange(len(x.freq_array))) if x.freq_array is not None else {}
        elif op in ("select_blt", "select_multi") and cls == "uv":
            kw["blt_inds"] = np.sort(rng.choice(x.Nblts, int(rng.integers(1, x.Nblts + 1)), replace=False))
            if op == "select_multi":
                kw["freq_chans"] = [0]
        elif op == "select_freq":
            n = len(x.freq_array) if x.freq_array is not None else 0
            if not n:
                raise Skip("no channels")
            kw["freq_chans"] = np.sort(rng.choice(n, int(rng.integers(1, n + 1)), replace=False))
        elif op == "select_pol":
            if cls == "beam":
                if x.beam_type == "efield":
                    kw["feeds"] = [str(x.feed_array[0])]
                else:
                    kw["polarizations"] = [int(x.polarization_array[0])]
            else:
                kw["polarizations"] = [int(x.polarization_array[-1])]
        elif op == "select_ant":
            kw["antenna_nums"] = rng.permutation(x.ant_array)[: int(rng.integers(1, len(x.ant_array) + 1))]
        elif op == "select_time":
            if getattr(x, "time_array", None) is None:
                raise Skip("time ranges")
            kw["times"] = [float(x.time_array[0])]
        elif op == "select_jones":
            kw["jones"] = [int(x.jones_array[0])]
        elif op == "select_axis":
            if x.pixel_coordinate_system == "healpix":
                kw["pixels"] = x.pixel_array[:3].copy()
            else:
                kw["axis1_inds"] = np.arange(3)
        args = kw
        fn = lambda o, inplace, others: o.select(inplace=inplace, **kw)
    elif op.startswith("add") or op.startswith("concat"):
        ax = op.split("_")[1]
        if cls == "uv":
            if ax == "freq":
                p, r = split2(rng, x.Nfreqs)
                a, b = sel(x, freq_chans=p), sel(x, freq_chans=r)
            elif ax == "pol":
                p, r = split2(rng, x.Npols)
                a, b = sel(x, polarizations=x.polarization_array[p]), sel(x, polarizations=x.polarization_array[r])
            elif ax in ("blt", "with"):
                if x.Nblts < 2:
                    raise Skip("one record")
                p, r = split2(rng, x.Nblts)
                a, b = sel(x, blt_inds=p), sel(x, blt_inds=r)
            if op.startswith("concat"):
                fn = lambda o, inplace, others: o.fast_concat(others[0], axis={"pol": "polarization"}.get(ax, ax), inplace=inplace)
            else:
                fn = lambda o, inplace, others: o.__add__(others[0], inplace=inplace)
        elif cls == "cal":
            n = {"ant": len(x.ant_array), "freq": x.Nfreqs, "time": x.Ntimes, "jones": x.Njones}[ax]
            if n < 2 or (ax == "time" and x.time_array is None) or (x.time_range is not None and ax != "time"):
                raise Skip("nothing to split")
            p, r = split2(rng, n)
            if ax == "ant":
                a, b = sel(x, antenna_nums=x.ant_array[p]), sel(x, antenna_nums=x.ant_array[r])
            elif ax == "freq":
                a, b = sel(x, freq_chans=p), sel(x, freq_chans=r)
            elif ax == "time":
                a, b = sel(x, times=x.time_array[p]), sel(x, times=x.time_array[r])
            else:
                a, b = sel(x, jones=x.jones_array[p]), sel(x, jones=x.jones_array[r])
            if op.startswith("concat"):
                fn = lambda o, inplace, others: o.fast_concat(others[0], axis={"ant": "antenna"}.get(ax, ax), inplace=inplace)
                if len(set(np.asarray(a.flex_spw_id_array if a.flex_spw_id_array is not None else [0]).tolist()) & set(np.asarray(b.flex_spw_id_array if b.flex_spw_id_array is not None else [1]).tolist())) and ax == "freq" and x.Nspws > 1:
                    raise Skip("interspersed windows")
            else:
                fn = lambda o, inplace, others: o.__add__(others[0], inplace=inplace)
        elif cls == "beam":
            if ax == "freq":
                if x.Nfreqs < 2:
                    raise Skip("one frequency")
                p, r = split2(rng, x.Nfreqs)
                a, b = q(sel, x, freq_chans=p), q(sel, x, freq_chans=r)
            elif x.pixel_coordinate_system == "healpix":
                if x.Npixels < 2:
                    raise Skip("one pixel")
                p, r = split2(rng, x.Npixels)
                a, b = q(sel, x, pixels=x.pixel_array[p]), q(sel, x, pixels=x.pixel_array[r])
            else:
                k = x.Naxes1 // 2
                a, b = q(sel, x, axis1_inds=np.arange(k)), q(sel, x, axis1_inds=np.arange(k, x.Naxes1))
            fn = lambda o, inplace, others: o.__add__(others[0], inplace=inplace)
        else:
            if ax == "freq":
                n = len(x.freq_array)
                if n < 2:
                    raise Skip("one channel")
                k = n // 2
                a, b = sel(x, freq_chans=np.arange(k)), sel(x, freq_chans=np.arange(k, n))
                fn = lambda o, inplace, others: o.__add__(others[0], axis="frequency", inplace=inplace)
            else:
                if x.type == "baseline" or x.Ntimes < 2:
                    raise Skip("baseline type")
                t = np.unique(x.time_array)
                a, b = sel(x, times=t[:1]), sel(x, times=t[1:])
                fn = lambda o, inplace, others: o.__add__(others[0], axis="time", inplace=inplace)
        x, others = a, [b]
        if op.startswith("concat") and rng.integers(2):
            pass
    elif op in ("sum_vis", "diff_vis"):
        y = copy.deepcopy(x)
        y.data_array = y.data_array * 2
        others = [y]
        fn = lambda o, inplace, others: getattr(o, op)(others[0], inplace=inplace)
    elif op == "compress":
        fn = lambda o, inplace, others: o.compress_by_redundancy(method=meth, tol=1.0, inplace=inplace)
        meth = gen.pick(rng, ["select", "average"])
        args = {"method": meth}
    elif op == "uvcalibrate":
        c = gen.make_uvcal(rng, tel=x.telescope, cal_type="gain", wide_band=False, time_range=False, jones=np.array([-5, -6])) if False else None
        from pyuvdata.uvcal.initializers import new_uvcal_from_uvdata

        c = q(new_uvcal_from_uvdata, x, cal_style="redundant", gain_convention="divide", empty=True)
        c.gain_array = gen.unique_complex(rng, c.gain_array.shape)
        others = [c]
        fn = lambda o, inplace, others: uvcalibrate(o, others[0], inplace=inplace, time_check=False)
    elif op == "apply_uvflag":
        f = q(UVFlag, x, mode="flag")
        f.flag_array = rng.random(f.flag_array.shape) < 0.4
        others = [f]
        fn = lambda o, inplace, others: apply_uvflag(o, others[0], inplace=inplace)
    elif op == "copy":
        mo = cls in ("uv", "cal") and bool(rng.integers(2))
        before = canon.snap(x)
        y = x.copy(metadata_only=True) if mo else x.copy()
        ctx.case(cls, op, mo, describe(x))
        d = canon.diff(before, x, exact=True)
        ctx.check(not d, lambda: f"copying changed the object: {d[:2]}")
        ign = [a for a in before if mo and (a.endswith("data_array") or a in ("flag_array", "nsample_array", "gain_array", "delay_array", "quality_array", "total_quality_array"))]
        d = canon.diff(before, y, exact=True, ignore=ign)
        ctx.check(not d, lambda: f"copy differs: {d[:2]}")
        overlap(ctx, y, x, f"{cls}.copy")
        ctx.ev(f"{cls}:{op}")
        return
    elif op == "flag_from":
        md = gen.pick(rng, ["flag", "metric"])
        wf = cls == "uv" and bool(rng.integers(3) == 0)
        cf = not wf and md == "flag" and bool(rng.integers(2))
        before = canon.snap(x)
        y = q(UVFlag, x, mode=md, waterfall=wf, copy_flags=cf) if not (cls == "cal" and (x.wide_band or x.time_range is not None or x.flex_jones_array is not None)) else None
        if y is None:
            raise Skip("no flags from wide-band solutions")
        ctx.case(cls, op, md, wf, cf, describe(x))
        d = canon.diff(before, x, exact=True)
        ctx.check(not d, lambda: f"making a UVFlag changed its source: {d[:2]}")
        overlap(ctx, y, x, f"UVFlag({cls}, mode={md}, waterfall={wf}, copy_flags={cf})")
        ctx.ev(f"{cls}:{op}")
        return
    elif op == "power":
        cp = bool(rng.integers(2))
        fn = lambda o, inplace, others: o.efield_to_power(calc_cross_pols=cp, inplace=inplace)
        if x.Nfeeds < 2:
            cp = False
    elif op == "pstokes":
        if x.Nfeeds < 2 or x.pixel_coordinate_system == "orthoslant_zenith":
            raise Skip("needs two feeds")
        fn = lambda o, inplace, others: o.efield_to_pstokes(inplace=inplace)
    elif op == "healpix":
        if x.pixel_coordinate_system != "az_za" or x.axis2_array.size < 4 or x.axis1_array.size < 4:
            raise Skip("not az_za")
        fn = lambda o, inplace, others: o.to_healpix(nside=4, inplace=inplace, interpolation_function="az_za_simple")
    elif op == "interp_new":
        if x.pixel_coordinate_system != "az_za" or x.Nfreqs < 1:
            raise Skip("not az_za")
        before = canon.snap(x)
        try:
            y = q(x.interp, az_array=x.axis1_array[1:3].copy(), za_array=x.axis2_array[1:3].copy(), az_za_grid=True, new_object=True, interpolation_function="az_za_simple", check_azza_domain=False)
        except (ValueError, NotImplementedError):
            raise Skip("cannot interpolate")
        ctx.case(cls, op, describe(x))
        d = canon.diff(before, x, exact=True)
        ctx.check(not d, lambda: f"interp(new_object=True) changed the beam: {d[:2]}")
        overlap(ctx, y, x, "interp(new_object=True)")
        ctx.ev(f"{cls}:{op}")
        return
    elif op == "or":
        y = x.copy()
        y.flag_array = rng.random(y.flag_array.shape) < 0.4
        others = [y]
        fn = lambda o, inplace, others: o.__or__(others[0], inplace=inplace)
    elif op == "combine":
        y = x.copy()
        y.metric_array = rng.random(y.metric_array.shape)
        others = [y]
        meth = gen.pick(rng, ["quadmean", "absmean", "mean"])
        fn = lambda o, inplace, others: o.combine_metrics(list(others), method=meth, inplace=inplace)
    elif op == "to_baseline_src":
        u = gen.make_uvdata(rng, nspw=1)
        w = q(UVFlag, u, mode="metric", waterfall=True)
        gen.fill_uvflag(rng, w)
        before = canon.snap(u)
        q(w.to_baseline, u, force_pol=True)
        ctx.case(cls, op, describe(u))
        d = canon.diff(before, u, exact=True)
        ctx.check(not d, lambda: f"to_baseline changed its UVData: {d[:2]}")
        overlap(ctx, w, u, "UVFlag.to_baseline")
        ctx.ev(f"{cls}:{op}")
        return
    elif op == "to_antenna_src":
        u = gen.make_uvcal(rng, wide=False, time_range=False)
        if u.flex_jones_array is not None:
            raise Skip("flex jones")
        w = q(UVFlag, u, mode=gen.pick(rng, ["flag", "metric"]), waterfall=True)
        gen.fill_uvflag(rng, w)
        before = canon.snap(u)
        q(w.to_antenna, u, force_pol=True)
        ctx.case(cls, op, describe(u))
        d = canon.diff(before, u, exact=True)
        ctx.check(not d, lambda: f"to_antenna changed its UVCal: {d[:2]}")
        overlap(ctx, w, u, "UVFlag.to_antenna")
        ctx.ev(f"{cls}:{op}")
        return
    s0 = canon.snap(x)
    so = [canon.snap(o) for o in others]
    a0 = copy.deepcopy(args)
    ctx.case(cls, op, describe(x), str(args)[:80])
    x2, others2 = copy.deepcopy(x), copy.deepcopy(others)
    try:
        r = q(fn, x, False, others)
        err = None
    except (ValueError, NotImplementedError, KeyError) as e:
        r, err = None, e
    # working out (and remembering) whether the blt axis is rectangular is not a change
    inferred = ("blts_are_rectangular", "time_axis_faster_than_bls") if s0.get("blts_are_rectangular") is None else ()
    d = canon.diff(s0, x, exact=True, ignore=inferred)
    ctx.check(not d, lambda: f"{cls}.{op} out of place{' (refused)' if err else ''} changed its object: {d[:2]}", mech=f"{cls}-{op}-source")
    for s, o in zip(so, others):
        d = canon.diff(s, o, exact=True)
        ctx.check(not d, lambda: f"{cls}.{op} out of place{' (refused)' if err else ''} changed its other operand: {d[:2]}", mech=f"{cls}-{op}-other")
    ctx.check(all(np.array_equal(a0[k], args[k]) for k in args), f"{cls}.{op} changed the arguments it was given")
    if err is not None:
        raise Skip(f"{op} refused: {type(err).__name__}: {err}")
    overlap(ctx, r, x, f"{cls}.{op}")
    for o in others:
        overlap(ctx, r, o, f"{cls}.{op}")
    r2 = q(fn, x2, True, others2)
    ctx.check(r2 is None or r2 is x2, f"{cls}.{op} in place returned another object")
    d = canon.diff(canon.snap(r), canon.snap(x2), exact=True)
    ctx.check(not d, lambda: f"{cls}.{op}: in place and out of place results differ: {d[:2]}", mech=f"{cls}-{op}-inplace")
    for s, o in zip(so, others2):
        d = canon.diff(s, o, exact=True)
        ctx.check(not d, lambda: f"{cls}.{op} in place changed its other operand: {d[:2]}", mech=f"{cls}-{op}-other")
    for o in others2:
        overlap(ctx, x2, o, f"{cls}.{op} in place")
    ctx.ev(f"{cls}:{op}")


def describe(x):
    d = next((getattr(x, a) for a in ("data_array", "gain_array", "delay_array", "metric_array", "flag_array") if getattr(x, a, None) is not None), None)
    return f"{type(x).__name__} {None if d is None else (d.shape, complex(np.ravel(d)[0]))}"


# ------------------------------------------------------------------ operations that must be refused
def bad(cls, ctx):
    rng = ctx.rng
    op = gen.pick(rng, BAD[cls])
    others = []
    kw = {}
    if cls == "uv":
        x = gen.make_uvdata(rng, ntimes=int(rng.integers(2, 4)), nphase=int(rng.integers(1, 3)))
        if op in ("calibrate", "apply_flag", "flexpol"):
            x = gen.make_uvdata(rng, ntimes=2, nphase=1, pols=np.array([-5, -6]), x_orientation="east")
        fn = _bad_uv(rng, op, x, others)
    elif cls == "cal":
        x = gen.make_uvcal(rng, cal_type="gain" if op == "to_gain" else None)
        fn = _bad_cal(rng, op, x, others)
    elif cls == "beam":
        x = gen.make_beam(rng, beam_type="power" if op == "power_of_power" else None)
        fn = _bad_beam(rng, op, x, others)
    else:
        x = gen.make_uvflag(rng, type={"to_antenna": gen.pick(rng, ["baseline"]), "to_baseline": "waterfall"}.get(op), mode={"or_mode": "metric", "to_metric": "metric"}.get(op))
        fn = _bad_flag(rng, op, x, others)
    s0 = canon.snap(x)
    so = [canon.snap(o) for o in others]
    ctx.case(cls, op, describe(x), getattr(fn, "tag", ""))
    try:
        q(fn, x)
    except Skip:
        raise
    except Exception as e:  # noqa: BLE001  any refusal will do
        err = e
    else:
        ctx.check(False, f"{cls}: {op} {getattr(fn, 'tag', '')} was accepted", mech=f"{cls}-bad-{op}-accepted")
        return
    d = canon.diff(s0, x, exact=True)
    ctx.check(not d, lambda: f"{cls}: refused {op} {getattr(fn, 'tag', '')} ({type(err).__name__}: {str(err)[:80]}) changed the object: {d[:3]}", mech=f"{cls}-bad-{op}")
    for s, o in zip(so, others):
        d = canon.diff(s, o, exact=True)
        ctx.check(not d, lambda: f"{cls}: refused {op} {getattr(fn, 'tag', '')} changed its other operand: {d[:3]}", mech=f"{cls}-bad-{op}")
    ctx.ev(f"{cls}:bad:{op}")


def T(fn, tag):
    fn.tag = tag
    return fn


def _bad_uv(rng, op, x, others):
    if op == "select":
        k = gen.pick(rng, [dict(times=[1.0]), dict(frequencies=[1.0]), dict(polarizations=[9]), dict(antenna_nums=[99999]), dict(bls=[(99999, 1)]), dict(blt_inds=[x.Nblts + 3]), dict(freq_chans=[x.Nfreqs + 5]),
                           dict(antenna_names=["nobody"]), dict(time_range=[1.0, 2.0]), dict(lst_range=[0.0]), dict(phase_center_ids=[987]), dict(catalog_names="nobody"), dict(spws=[987])])
        return T(lambda o: o.select(**k), str(k))
    if op == "select_late":
        ok = gen.pick(rng, [dict(times=[float(x.time_array[0])]), dict(freq_chans=[0]), dict(blt_inds=[0]), dict(antenna_nums=[int(x.ant_1_array[0]), int(x.ant_2_array[0])]), dict(polarizations=[int(x.polarization_array[0])])])
        no = gen.pick(rng, [dict(polarizations=[9]), dict(frequencies=[1.0]), dict(times=[1.0]), dict(spws=[987])])
        if set(ok) & set(no):
            raise Skip("same key")
        k = {**ok, **no}
        return T(lambda o: o.select(**k), str(k)[:60])
    if op == "add_overlap":
        y = x.copy()
        others.append(y)
        return T(lambda o: o.__iadd__(y), "")
    if op == "add_units":
        if x.Nblts < 2:
            raise Skip("one record")
        y = x.select(blt_inds=np.arange(x.Nblts // 2), inplace=False)
        x.select(blt_inds=np.arange(x.Nblts // 2, x.Nblts))
        w = gen.pick(rng, ["vis_units", "x_orientation", "telescope_name", "ants", "freq"])
        if w == "vis_units":
            y.vis_units = {"Jy": "K str", "K str": "uncalib", "uncalib": "Jy"}[y.vis_units]
        elif w == "x_orientation":
            y.telescope.x_orientation = "north" if y.telescope.x_orientation == "east" else "east"
        elif w == "telescope_name":
            y.telescope.name = "ELSEWHERE"
        elif w == "ants":
            y.telescope.antenna_positions = y.telescope.antenna_positions + 10.0
        else:
            y.freq_array = y.freq_array + 1e3
            y.polarization_array = np.arange(1, 5)[: y.Npols] if y.polarization_array[0] < 0 else -5 - np.arange(4)[: y.Npols]
            y.select(blt_inds=np.arange(y.Nblts))
        if rng.integers(2):
            y.phase_center_catalog[77] = y.phase_center_catalog.pop(int(y.phase_center_id_array[0]))
            y.phase_center_id_array[y.phase_center_id_array == y.phase_center_id_array[0]] = 77
        others.append(y)
        if w == "freq":
            raise Skip("partial overlap is allowed")
        if rng.integers(2):
            return T(lambda o: o.__iadd__(y), w)
        return T(lambda o: o.fast_concat(y, axis="blt", inplace=True), w + " concat")
    if op == "add_nothing":
        y = gen.pick(rng, [3, "x", None])
        return T(lambda o: o.__iadd__(y), str(y))
    if op == "concat_axis":
        y = x.copy()
        others.append(y)
        return T(lambda o: o.fast_concat(y, axis=gen.pick(rng, ["baseline", 3, "time"]), inplace=True), "")
    if op == "concat_mismatch":
        y = x.copy()
        ax = gen.pick(rng, ["blt", "freq", "polarization"])
        if ax == "blt":
            y.freq_array = y.freq_array + 1e6
        elif ax == "freq":
            y.integration_time = y.integration_time + 5.0
        else:
            y.freq_array = y.freq_array + 1e6
        others.append(y)
        return T(lambda o: o.fast_concat([y], axis=ax, inplace=True), ax)
    if op == "phase_frame":
        k = gen.pick(rng, [dict(lon=0.1, lat=0.2, phase_frame="nowhere"), dict(lon=None, lat=None), dict(lon=0.1, lat=0.2, phase_frame="icrs", select_mask=np.ones(x.Nblts + 1, bool)),
                           dict(lon=0.1, lat=0.2, phase_frame="icrs", cat_name=3)])
        k.setdefault("cat_name", "new")
        k.setdefault("phase_frame", "icrs")
        return T(lambda o: o.phase(**k), str(k)[:90])
    if op == "phase_type":
        k = gen.pick(rng, [dict(cat_type="blah"), dict(cat_type="ephem", ephem_times=np.array([1.0, 2.0])), dict(cat_type="ephem", lookup_name=False, ephem_times=None)])
        if k.get("cat_type") == "ephem":
            k.update(lon=np.array([0.1, 0.2]), lat=np.array([0.1, 0.2]), ephem_times=np.array([1.0, 2.0]))
        return T(lambda o: o.phase(cat_name="new", phase_frame="icrs", **{**dict(lon=0.1, lat=0.2), **k}), str(k)[:80])
    if op == "reorder_blts":
        k = gen.pick(rng, [dict(order="blah"), dict(order="time", minor_order="blah"), dict(order=np.arange(x.Nblts + 1)), dict(order="time", conj_convention="blah"), dict(order=np.zeros(x.Nblts, dtype=int))])
        if "order" in k and isinstance(k["order"], np.ndarray) and x.Nblts == 1:
            raise Skip("one record")
        return T(lambda o: o.reorder_blts(**k), str(k)[:60])
    if op == "reorder_freqs":
        k = gen.pick(rng, [dict(spw_order="blah"), dict(channel_order="blah"), dict(channel_order=np.arange(x.Nfreqs + 2)), dict(spw_order="number", channel_order="blah")])
        return T(lambda o: o.reorder_freqs(**k), str(k)[:60])
    if op == "reorder_pols":
        k = gen.pick(rng, [dict(order="blah"), dict(order=np.arange(x.Npols + 1)), dict(order=np.zeros(x.Npols + 1))])
        return T(lambda o: o.reorder_pols(**k), str(k)[:60])
    if op == "conjugate":
        k = gen.pick(rng, ["blah", np.array([x.Nblts + 4]), np.array([-1 - x.Nblts])])
        return T(lambda o: o.conjugate_bls(convention=k), str(k))
    if op == "sum_mismatch":
        y = x.copy()
        w = gen.pick(rng, ["freq", "blt", "pol"])
        if w == "freq":
            y.freq_array = y.freq_array + 1e6
        elif w == "blt":
            y.time_array = y.time_array + 1.0
        else:
            y.polarization_array = y.polarization_array - 1
        others.append(y)
        m = gen.pick(rng, ["sum_vis", "diff_vis"])
        return T(lambda o: getattr(o, m)(y, inplace=True), w)
    if op == "down":
        k = gen.pick(rng, [dict(), dict(n_times_to_avg=0.5), dict(min_int_time=30.0, blt_order="blah"), dict(min_int_time=30.0, n_times_to_avg=2), dict(n_times_to_avg="two")])
        return T(lambda o: o.downsample_in_time(**k), str(k))
    if op == "up":
        return T(lambda o: o.upsample_in_time(max_int_time=1.0, blt_order="blah"), "")
    if op == "freq_avg":
        k = gen.pick(rng, [dict(), dict(n_chan_to_avg=2.5), dict(n_chan_to_avg="x")]) if False else dict()
        return T(lambda o: o.frequency_average(**k), str(k))
    if op == "flexpol":
        w = gen.pick(rng, ["remove", "twice"])
        if w == "remove":
            x.flex_spw_polarization_array = None
            x.convert_to_flex_pol()
            return T(lambda o: o.convert_to_flex_pol(), "twice")
        x.convert_to_flex_pol()
        return T(lambda o: o.convert_to_flex_pol(), "twice")
    if op == "pc":
        return T(gen.pick(rng, [lambda o: o.rename_phase_center(9999, "x"), lambda o: o.merge_phase_centers([9999, 9998]), lambda o: o.split_phase_center("nobody", select_mask=[0])]), "")
    if op == "ant_pos":
        y = x.copy()
        y.telescope.antenna_names = np.array([f"{n}zz" for n in y.telescope.antenna_names])
        return T(lambda o: o.update_antenna_positions(new_positions={int(o.telescope.antenna_numbers[-1]): np.ones(3), int(o.telescope.antenna_numbers[0]): np.zeros(2)}), "")
    if op in ("set_data", "setdata_shape"):
        a = (int(x.ant_1_array[0]), int(x.ant_2_array[0]))
        dat = x.get_data(a)
        if op == "set_data":
            return T(lambda o: o.set_data(dat, 99999, 99998), "unknown pair")
        w = gen.pick(rng, ["set_data", "set_flags", "set_nsamples"])
        return T(lambda o: getattr(o, w)(np.ones((77, 3)), *a), w)
    if op == "calibrate":
        from pyuvdata.uvcal.initializers import new_uvcal_from_uvdata

        c = q(new_uvcal_from_uvdata, x, cal_style="redundant", gain_convention="divide", empty=True)
        c.gain_array = gen.unique_complex(rng, c.gain_array.shape)
        w = gen.pick(rng, ["delay", "freq", "time", "ants", "nocaltwice"])
        if w == "delay":
            c.freq_array = c.freq_array + 1e6
        elif w == "freq":
            c.freq_array = c.freq_array + 1e6
        elif w == "time":
            c.time_array = c.time_array + 1.0
        elif w == "ants":
            if c.Nants_data < 2:
                raise Skip("one antenna")
            c.select(antenna_nums=c.ant_array[:1])
        else:
            c.pol_convention = "sum"
            return T(lambda o: uvcalibrate(o, c, inplace=True, uvd_pol_convention="blah", uvc_pol_convention="avg"), w)
        others.append(c)
        return T(lambda o: uvcalibrate(o, c, inplace=True), w)
    if op == "apply_flag":
        f = q(UVFlag, x, mode="flag")
        w = gen.pick(rng, ["mode", "times", "freqs", "pols"])
        if (w == "freqs" and x.Nfreqs == 1) or (w == "times" and x.Ntimes == 1):
            raise Skip("broadcast")
        if w == "mode":
            f = q(UVFlag, x, mode="metric")
        elif w == "times":
            f.time_array = f.time_array + 1.0
        elif w == "freqs":
            f.freq_array = f.freq_array + 1e6
        else:
            f.polarization_array = np.array([-1, -2])
        others.append(f)
        return T(lambda o: apply_uvflag(o, f, inplace=True), w)
    if op == "compress":
        return T(lambda o: o.compress_by_redundancy(method="blah"), "")
    if op == "phase_time":
        return T(lambda o: o.phase_to_time("never"), "")
    raise AssertionError(op)


def _bad_cal(rng, op, x, others):
    if op == "select":
        k = gen.pick(rng, [dict(times=[1.0]), dict(frequencies=[1.0]), dict(jones=[9]), dict(antenna_nums=[99999]), dict(antenna_names=["nobody"]), dict(spws=[987])])
        if "spws" in k and x.Nspws == 1:
            raise Skip("ignored, with a warning")
        return T(lambda o: o.select(**k), str(k))
    if op == "select_late":
        ok = gen.pick(rng, [dict(antenna_nums=[int(x.ant_array[0])]), dict(jones=[int(x.jones_array[0])])])
        no = gen.pick(rng, [dict(jones=[9]), dict(times=[1.0]), dict(spws=[987])])
        if set(ok) & set(no):
            raise Skip("same key")
        if "spws" in no and x.Nspws == 1:
            raise Skip("ignored, with a warning")
        return T(lambda o: o.select(**ok, **no), str((ok, no)))
    if op == "add_overlap":
        y = x.copy()
        others.append(y)
        return T(lambda o: o.__iadd__(y), "")
    if op == "add_convention":
        if len(x.ant_array) < 2:
            raise Skip("one antenna")
        y = x.select(antenna_nums=x.ant_array[:1], inplace=False)
        x.select(antenna_nums=x.ant_array[1:])
        w = gen.pick(rng, ["gain_convention", "cal_type", "telescope", "xor"])
        if w == "gain_convention":
            y.gain_convention = "multiply" if y.gain_convention == "divide" else "divide"
        elif w == "cal_type":
            y.cal_type = "delay" if y.cal_type == "gain" else "gain"
        elif w == "telescope":
            y.telescope.name = "ELSEWHERE"
        else:
            y.telescope.x_orientation = "north" if y.telescope.x_orientation == "east" else "east"
        others.append(y)
        if rng.integers(2):
            return T(lambda o: o.__add__(y, inplace=True, run_check=False), w)
        return T(lambda o: o.fast_concat(y, axis="antenna", inplace=True, run_check=False), w + " concat")
    if op == "concat_axis":
        y = x.copy()
        others.append(y)
        return T(lambda o: o.fast_concat(y, axis="blt", inplace=True), "")
    if op == "concat_mismatch":
        y = x.copy()
        y.ant_array = y.ant_array[::-1] + 1
        ax = gen.pick(rng, ["time", "jones"])
        others.append(y)
        return T(lambda o: o.fast_concat([y], axis=ax, inplace=True, run_check=False), ax)
    if op.startswith("reorder"):
        k = {"reorder_antennas": gen.pick(rng, [dict(order="blah"), dict(order=np.arange(len(x.ant_array) + 1))]),
             "reorder_freqs": gen.pick(rng, [dict(spw_order="blah"), dict(channel_order="blah")]),
             "reorder_times": gen.pick(rng, [dict(order="blah"), dict(order=np.arange(x.Ntimes + 1))]),
             "reorder_jones": gen.pick(rng, [dict(order="blah"), dict(order=np.arange(x.Njones + 1))])}[op]
        if op == "reorder_freqs" and x.wide_band:
            k = dict(spw_order="blah")
        if op == "reorder_freqs" and x.Nfreqs == 1:
            raise Skip("one channel: nothing to order")
        if op == "reorder_freqs" and x.Nspws == 1 and "spw_order" in k:
            raise Skip("one window: nothing to order")
        return T(lambda o: getattr(o, op)(**k), str(k))
    if op == "to_gain":
        k = gen.pick(rng, [dict(delay_convention="blah")])
        if x.cal_type != "delay":
            x2 = gen.make_uvcal(rng, cal_type="delay")
            x.__dict__.update(x2.__dict__)
        f = gen.pick(rng, [lambda o: o.convert_to_gain(delay_convention="blah", freq_array=np.array([1e8]), channel_width=1e6), lambda o: o.convert_to_gain()])
        return T(f, "")
    if op == "flexjones":
        if x.Njones < 2:
            raise Skip("one jones")
        x.convert_to_flex_jones()
        return T(lambda o: o.convert_to_flex_jones(), "twice")
    raise AssertionError(op)


def _bad_beam(rng, op, x, others):
    hp = x.pixel_coordinate_system == "healpix"
    if op == "select":
        k = gen.pick(rng, [dict(frequencies=[1.0]), dict(freq_chans=[x.Nfreqs + 4]), dict(pixels=[10**6]) if hp else dict(axis1_inds=[10**4]), dict(feeds=["q"]) if x.beam_type == "efield" else dict(polarizations=[9])])
        return T(lambda o: o.select(**k), str(k))
    if op == "select_late":
        ok = dict(pixels=x.pixel_array[:2]) if hp else dict(axis1_inds=np.arange(2))
        no = gen.pick(rng, [dict(frequencies=[1.0]), dict(feeds=["q"]) if x.beam_type == "efield" else dict(polarizations=[9])])
        return T(lambda o: o.select(**ok, **no), str((ok, no))[:80])
    if op == "add_overlap":
        y = x.copy()
        others.append(y)
        return T(lambda o: o.__iadd__(y), "")
    if op == "add_type":
        if x.Nfreqs < 2:
            raise Skip("one frequency")
        y = q(x.select, freq_chans=[0], inplace=False)
        q(x.select, freq_chans=np.arange(1, x.Nfreqs))
        w = gen.pick(rng, ["norm", "name", "feed"])
        if w == "norm":
            y.data_normalization = "peak" if x.data_normalization != "peak" else "physical"
        elif w == "name":
            y.telescope_name = "ELSEWHERE"
        else:
            y.feed_name = "otherfeed"
        others.append(y)
        return T(lambda o: o.__add__(y, inplace=True), w)
    if op == "power_of_power":
        return T(gen.pick(rng, [lambda o: o.efield_to_power(), lambda o: o.efield_to_pstokes()]), "")
    if op == "peak":
        x.data_normalization = "solid_angle"
        return T(lambda o: o.peak_normalize(), "")
    if op == "healpix":
        if hp:
            raise Skip("already healpix")
        return T(lambda o: o.to_healpix(nside=4, interpolation_function="blah", inplace=True), "")
    if op == "interp":
        return T(lambda o: o.interp(az_array=np.array([0.1]), za_array=np.array([0.1]), interpolation_function="blah"), "")
    raise AssertionError(op)


def _bad_flag(rng, op, x, others):
    if op == "select":
        k = gen.pick(rng, [dict(times=[1.0]), dict(frequencies=[1.0]), dict(polarizations=[9]), dict(freq_chans=[len(x.freq_array) + 5])])
        return T(lambda o: o.select(**k), str(k))
    if op == "select_late":
        ok = gen.pick(rng, [dict(times=[float(x.time_array[0])]), dict(freq_chans=[0])])
        no = gen.pick(rng, [dict(polarizations=[9]), dict(frequencies=[1.0])])
        return T(lambda o: o.select(**ok, **no), str((ok, no))[:80])
    if op == "add_overlap":
        y = gen.pick(rng, [3, None, "x"])
        return T(lambda o: o.__iadd__(y), "")
    if op == "add_axis":
        y = x.copy()
        others.append(y)
        ax = gen.pick(rng, ["blah", "antenna" if x.type != "antenna" else "baseline"])
        return T(lambda o: o.__add__(y, axis=ax, inplace=True), ax)
    if op == "add_mode":
        y = x.copy()
        others.append(y)
        w = gen.pick(rng, ["mode", "type", "telescope", "axis"])
        if w == "mode":
            y.mode = "flag" if x.mode == "metric" else "metric"
        elif w == "type":
            y.type = "waterfall" if x.type != "waterfall" else "baseline"
        elif w == "telescope":
            y.telescope.name = "ELSEWHERE"
        else:
            y.freq_array = y.freq_array + 1e6
        ax = "time"
        return T(lambda o: o.__add__(y, axis=ax, inplace=True, run_check=False), w)
    if op == "or_mode":
        y = x.copy()
        others.append(y)
        return T(lambda o: o.__or__(y, inplace=True), "")
    if op == "combine_mode":
        y = x.copy()
        if x.mode == "metric":
            w = gen.pick(rng, ["type", "shape"])
            if w == "type":
                y = "x"
            else:
                y.metric_array = y.metric_array[..., :1].repeat(y.metric_array.shape[-1] + 1, -1)
                others.append(y)
        return T(lambda o: o.combine_metrics([y], inplace=True), "")
    if op == "to_waterfall":
        k = gen.pick(rng, [dict(method="blah"), dict(return_weights_square=True, method="blah")])
        if x.type == "waterfall" and (x.polarization_array is None or len(x.polarization_array) == 1 or True):
            raise Skip("already a waterfall")
        return T(lambda o: o.to_waterfall(**k), str(k))
    if op == "to_baseline":
        k = gen.pick(rng, ["x", 3])
        return T(lambda o: o.to_baseline(k), str(k))
    if op == "to_antenna":
        k = gen.pick(rng, ["x", 3])
        return T(lambda o: o.to_antenna(k), str(k))
    if op == "to_flag":
        x.mode = "blah"
        x._mode.acceptable_vals = None
        return T(gen.pick(rng, [lambda o: o.to_flag(), lambda o: o.to_metric()]), "")
    if op == "to_metric":
        x.mode = "blah"
        return T(lambda o: o.to_metric(), "")
    if op == "collapse":
        return T(lambda o: o.collapse_pol(method="blah"), "") if x.polarization_array is not None and len(x.polarization_array) > 1 else T(lambda o: o.collapse_pol(method=3, use_extra="x"), "")
    raise AssertionError(op)


def mk(f, c):
    def g(ctx):
        return f(c, ctx)

    return g


SCENARIOS = [Scenario(f"good_{c}", mk(good, c), n, 5 * n) for c, n in (("uv", 1000), ("cal", 800), ("beam", 600), ("flag", 600))] + [
    Scenario(f"bad_{c}", mk(bad, c), n, 4 * n) for c, n in (("uv", 1000), ("cal", 500), ("beam", 400), ("flag", 500))]
