"""C17: inconsistent objects are rejected, consistent ones accepted.

One corruption at a time is applied to a consistent object and the verdict of
check() is compared with a rule table written down here (not read from the
code): shapes and types of every set attribute, counts, vocabularies, required
attributes, references, real auto-correlations, LST warnings.  Every file writer
that checks is given the corrupted object too (see also C20).
"""
import copy
import warnings

import numpy as np

from pyuvdata import UVBeam, UVCal, UVData, UVFlag  # noqa: F401
from vmon import canon, gen
from vmon.core import Scenario, Skip
from vmon.props import common
from vmon.props.c18 import make
from vmon.props.common import quiet

COUNTS = {
    "uv": ["Nants_data", "Nbls", "Nblts", "Nfreqs", "Npols", "Nspws", "Ntimes"],
    "cal": ["Nants_data", "Nfreqs", "Njones", "Nspws", "Ntimes"],
    "beam": ["Naxes_vec", "Nfreqs", "Naxes1", "Naxes2", "Npixels", "Nfeeds", "Npols"],
    "flag": ["Nants_data", "Nbls", "Nblts", "Nfreqs", "Npols", "Nspws", "Ntimes"],
    "tel": ["Nants"],
}
VOCAB = {
    "uv": {"vis_units": str, "pol_convention": str, "polarization_array": int, "blt_order": tuple},
    "cal": {"cal_style": str, "cal_type": str, "gain_convention": str, "jones_array": int, "pol_convention": str, "flex_jones_array": int},
    "beam": {"antenna_type": str, "beam_type": str, "data_normalization": str, "feed_array": list, "pixel_coordinate_system": str, "ordering": str, "polarization_array": int, "x_orientation": str, "element_coordinate_system": str},
    "flag": {"polarization_array": int},
    "tel": {"x_orientation": str},
}
REQ = {
    "uv": ["Nants_data", "Nbls", "Nblts", "Nfreqs", "Npols", "Nspws", "Ntimes", "ant_1_array", "ant_2_array", "baseline_array", "channel_width", "flag_array", "flex_spw_id_array", "freq_array", "history",
           "integration_time", "lst_array", "nsample_array", "phase_center_app_dec", "phase_center_app_ra", "phase_center_frame_pa", "phase_center_id_array", "phase_center_catalog", "polarization_array", "spw_array",
           "time_array", "uvw_array", "vis_units"],
    "cal": ["Nants_data", "Nfreqs", "Njones", "Nspws", "Ntimes", "ant_array", "cal_style", "gain_convention", "history", "integration_time", "jones_array", "spw_array", "wide_band"],
    "beam": ["Naxes_vec", "Nfreqs", "antenna_type", "bandpass_array", "beam_type", "data_array", "data_normalization", "feed_name", "feed_version", "freq_array", "history", "model_name", "model_version",
             "pixel_coordinate_system", "telescope_name"],
    "flag": ["Nfreqs", "Nspws", "Ntimes", "channel_width", "flex_spw_id_array", "freq_array", "history", "lst_array", "spw_array", "time_array", "label"],
    "tel": ["name", "location"],
}
TELREQ = ["name", "location", "antenna_names", "antenna_numbers", "antenna_positions", "Nants"]
# attributes whose value is an array of numbers or strings with a definite shape
ARR = {
    "uv": ["ant_1_array", "ant_2_array", "baseline_array", "channel_width", "data_array", "eq_coeffs", "flag_array", "flex_spw_id_array", "freq_array", "integration_time", "lst_array", "nsample_array",
           "phase_center_app_dec", "phase_center_app_ra", "phase_center_frame_pa", "phase_center_id_array", "polarization_array", "scan_number_array", "spw_array", "time_array", "uvw_array"],
    "cal": ["ant_array", "channel_width", "delay_array", "flag_array", "flex_spw_id_array", "freq_array", "freq_range", "gain_array", "integration_time", "jones_array", "lst_array", "lst_range", "phase_center_id_array",
            "quality_array", "ref_antenna_array", "scan_number_array", "spw_array", "time_array", "time_range", "total_quality_array"],
    "beam": ["axis1_array", "axis2_array", "bandpass_array", "basis_vector_array", "data_array", "feed_array", "freq_array", "loss_array", "mismatch_array", "pixel_array", "polarization_array",
             "receiver_temperature_array", "s_parameters", "element_location_array", "delay_array", "gain_array", "coupling_matrix"],
    "flag": ["ant_1_array", "ant_2_array", "ant_array", "baseline_array", "channel_width", "flag_array", "flex_spw_id_array", "freq_array", "lst_array", "metric_array", "polarization_array", "spw_array", "time_array",
             "weights_array", "weights_square_array"],
    "tel": ["antenna_diameters", "antenna_names", "antenna_numbers", "antenna_positions"],
}
STRS = {
    "uv": ["history", "vis_units", "timesys", "rdate", "eq_coeffs_convention"],
    "cal": ["history", "cal_style", "gain_convention", "observer", "sky_catalog", "ref_antenna_name", "diffuse_model", "gain_scale", "git_hash_cal", "git_origin_cal"],
    "beam": ["history", "feed_name", "feed_version", "model_name", "model_version", "telescope_name"],
    "flag": ["history", "label"],
    "tel": ["name", "instrument"],
}
CL = ["uv", "cal", "beam", "flag", "tel"]
RULE = "consistent random object, one corruption from the rule table; non-trivial: the attribute is set"
REQUIRED = [f"{c}:{k}" for c in CL for k in ("accepted", "shape", "type", "count", "vocab", "missing", "string")] + [
    "uv:ref_ant", "cal:ref_ant", "flag:ref_ant", "uv:ref_catalog", "uv:ref_spw", "cal:ref_spw", "flag:ref_spw", "uv:auto_imag", "uv:auto_uvw", "uv:cross_uvw", "uv:fix_autos", "uv:auto_flexpol", "uv:lst_warn", "cal:lst_warn", "flag:lst_warn",
    "uv:tel_shape", "cal:tel_shape", "flag:tel_shape", "uv:tel_missing", "cal:tel_missing", "uv:strict_uvw", "uv:flexpol", "uv:freq_spacing", "cal:time_both", "cal:range_overlap", "cal:wide", "beam:basis_long", "uv:polconv", "beam:auto_power",
    "accept_extra_off", "accept_acceptability_off", "uv:rectangular", "writer:refused"]

OTHER = {"b": ["i", "f"], "i": ["f", "b", "c"], "u": ["f"], "f": ["i", "c", "b"], "c": ["f", "i"], "U": ["i", "f"]}


def verdict(x, **k):
    """None when accepted, the exception otherwise; plus the warnings"""
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        try:
            x.check(**k)
        except Exception as e:  # noqa: BLE001
            return e, [str(v.message) for v in w]
    return None, [str(v.message) for v in w]


def reject(ctx, x, what, mech, **k):
    e, _ = verdict(x, **k)
    ctx.check(e is not None, f"{what}: accepted by check()", mech)


def accept(ctx, x, what, mech, **k):
    s = canon.snap(x)
    e, w = verdict(x, **k)
    ctx.check(e is None, f"{what}: refused: {type(e).__name__}: {e}", mech)
    d = canon.diff(s, canon.snap(x), exact=True)
    ctx.check(not d, f"{what}: check() changed the object: {d[:3]}", mech + "-changes")
    return w


def cast(v, kind):
    if isinstance(v, np.ndarray):
        if v.dtype.kind == "U":
            return np.arange(v.size).reshape(v.shape).astype({"i": int, "f": float}[kind])
        v = v.real if v.dtype.kind == "c" else v
        return v.astype({"b": bool, "i": int, "f": float, "c": complex}[kind])
    return [3 for _ in v]


def corrupt(cls, ctx):
    rng = ctx.rng
    x = make(rng, cls)
    accept(ctx, x, f"{cls}: consistent object", f"{cls}-accept")
    ctx.ev(f"{cls}:accepted")
    owner, c, pre = x, cls, cls
    mode = gen.pick(rng, ["shape", "shape", "type", "type", "count", "vocab", "missing", "missing", "string", "tel"] if cls not in ("tel", "beam") else ["shape", "shape", "type", "type", "count", "vocab", "missing", "string"])
    if mode == "tel":
        owner, c, pre = x.telescope, "tel", f"{cls}:tel"
        mode = gen.pick(rng, ["shape", "missing"])
    if mode in ("shape", "type"):
        names = [n for n in ARR[c] if getattr(owner, n) is not None and np.size(getattr(owner, n))]
        n = gen.pick(rng, names)
        v = getattr(owner, n)
        if mode == "shape":
            a = np.asarray(v)
            ax = int(rng.integers(a.ndim))
            how = gen.pick(rng, ["longer", "shorter", "extra_axis", "empty"])
            if how == "longer":
                w = np.concatenate([a, np.take(a, [-1], axis=ax)], axis=ax)
            elif how == "shorter":
                if a.shape[ax] < 2:
                    raise Skip("one element")
                w = np.take(a, np.arange(a.shape[ax] - 1), axis=ax)
            elif how == "extra_axis":
                w = np.expand_dims(a, int(rng.integers(a.ndim + 1)))
            else:
                w = np.take(a, [], axis=ax).astype(a.dtype)
            if isinstance(v, list):
                w = w.tolist()
            setattr(owner, n, w)
            ctx.case(pre, mode, n, how, ax, np.shape(w))
            reject(ctx, x, f"{pre}.{n} has shape {np.shape(w)} instead of {np.shape(v)}", f"{pre}-{n}-shape")
        else:
            if n == "data_array" and cls == "beam" and x.beam_type == "power":
                raise Skip("real or complex")
            kind = "U" if not isinstance(v, np.ndarray) else v.dtype.kind
            k = gen.pick(rng, OTHER[kind])
            setattr(owner, n, cast(v, k))
            ctx.case(pre, mode, n, k)
            reject(ctx, x, f"{pre}.{n} has type {k} instead of {kind}", f"{pre}-{n}-type")
        ctx.ev(f"{pre}_{mode}" if owner is not x else f"{pre}:{mode}")
        return
    if mode == "count":
        n = gen.pick(rng, [m for m in COUNTS[c] if getattr(x, m) is not None])
        d = int(gen.pick(rng, [1, -1, 3]))
        setattr(x, n, int(getattr(x, n)) + d)
        ctx.case(pre, mode, n, d)
        reject(ctx, x, f"{pre}.{n} off by {d}", f"{pre}-{n}-count")
    elif mode == "vocab":
        n = gen.pick(rng, [m for m in VOCAB[c] if getattr(x, m) is not None])
        t = VOCAB[c][n]
        v = getattr(x, n)
        if t is str:
            w = gen.pick(rng, ["bananas", "", v + "x", v[:-1]])
        elif t is int:
            w = v.copy()
            w[int(rng.integers(len(w)))] = int(gen.pick(rng, [9, -9, 17, 5]))
        elif t is tuple:
            w = ("bananas", "time")
        else:
            w = list(v)
            w[0] = "q"
            w = np.array(w)
        setattr(x, n, w)
        if n == "beam_type" or (n == "pixel_coordinate_system"):
            pass
        ctx.case(pre, mode, n, str(w))
        reject(ctx, x, f"{pre}.{n} = {w!r}", f"{pre}-{n}-vocab")
    elif mode == "missing":
        n = gen.pick(rng, (TELREQ if owner is not x else REQ[c]))
        if owner is not x and cls == "flag" and n not in ("name", "location"):
            raise Skip("optional there")
        setattr(owner, n, None)
        ctx.case(pre, mode, n)
        reject(ctx, x, f"{pre}.{n} is not set", f"{pre}-{n}-missing")
        if owner is not x:
            ctx.ev(f"{cls}:tel_missing")
            return
    elif mode == "string":
        n = gen.pick(rng, [m for m in STRS[c] if getattr(x, m) is not None])
        setattr(x, n, gen.pick(rng, [3, 2.5, ["a"], None]))
        if getattr(x, n) is None:
            setattr(x, n, 7)
        ctx.case(pre, mode, n)
        reject(ctx, x, f"{pre}.{n} = {getattr(x, n)!r}", f"{pre}-{n}-string")
    ctx.ev(f"{pre}:{mode}")


def relations(cls, ctx):
    rng = ctx.rng
    ops = {"uv": ["ref_ant", "ref_catalog", "ref_spw", "auto_imag", "auto_uvw", "cross_uvw", "fix_autos", "lst_warn", "strict_uvw", "flexpol", "freq_spacing", "polconv", "rectangular"],
           "cal": ["ref_ant", "ref_spw", "lst_warn", "time_both", "range_overlap", "wide"], "flag": ["ref_ant", "ref_spw", "lst_warn"], "beam": ["basis_long", "auto_power"]}[cls]
    op = gen.pick(rng, ops)
    x = make(rng, cls)
    if op == "ref_ant":
        far = int(max(x.telescope.antenna_numbers)) + 5
        if cls == "uv" or (cls == "flag" and x.type == "baseline"):
            n = gen.pick(rng, ["ant_1_array", "ant_2_array"])
        elif cls == "flag" and x.type != "antenna":
            raise Skip("waterfall")
        else:
            n = "ant_array"
        a = getattr(x, n).copy()
        i = int(rng.integers(len(a)))
        old = int(a[i])
        a[a == old] = far  # counts stay right
        setattr(x, n, a)
        if n in ("ant_1_array", "ant_2_array"):
            x.Nants_data = len(set(x.ant_1_array.tolist()) | set(x.ant_2_array.tolist()))
        ctx.case(cls, op, n, old, far)
        reject(ctx, x, f"{cls}.{n} names antenna {far}, which does not exist", f"{cls}-{op}")
    elif op == "ref_catalog":
        a = x.phase_center_id_array.copy()
        a[int(rng.integers(len(a)))] = max(x.phase_center_catalog) + 11
        x.phase_center_id_array = a
        ctx.case(cls, op, a.tolist())
        reject(ctx, x, "a record names a phase center that does not exist", f"{cls}-{op}")
    elif op == "ref_spw":
        if x.flex_spw_id_array is None:
            raise Skip("wide band")
        a = x.flex_spw_id_array.copy()
        a[int(rng.integers(len(a)))] = int(max(x.spw_array)) + 7
        x.flex_spw_id_array = a
        ctx.case(cls, op, a.tolist())
        reject(ctx, x, f"{cls}: a channel names a window that does not exist", f"{cls}-{op}")
    elif op in ("auto_imag", "fix_autos"):
        autos = np.nonzero(x.ant_1_array == x.ant_2_array)[0]
        if not len(autos):
            raise Skip("no autos")
        REAL = (1, 2, 3, 4, -1, -2, -5, -6)
        if rng.integers(3) == 0 and x.Npols > 1 and x.flex_spw_polarization_array is None:
            x.convert_to_flex_pol()
            ctx.ev("uv:auto_flexpol")
        if x.flex_spw_polarization_array is not None:
            mp = dict(zip(x.spw_array.tolist(), x.flex_spw_polarization_array.tolist(), strict=True))
            pols = np.array([mp[int(s)] for s in x.flex_spw_id_array])[:, None]
        else:
            pols = np.repeat(x.polarization_array[None], x.Nfreqs, axis=0)
        b, f, p = int(gen.pick(rng, list(autos))), int(rng.integers(x.Nfreqs)), int(rng.integers(x.Npols))
        eps = float(10 ** rng.uniform(-3, 2))
        d = x.data_array.copy()
        d[b, f, p] += 1j * eps
        x.data_array = d
        if rng.integers(3) == 0:
            x.flag_array[b, f, p] = True
        ctx.case(cls, op, int(pols[f, p]), eps, b, f)
        if int(pols[f, p]) not in REAL:
            accept(ctx, x, f"auto-correlation of crossed polarization {pols[f, p]} is complex", "uv-auto-cross", check_autos=True)
            return
        reject(ctx, x, f"auto-correlation at {b, f, p} (pol {pols[f, p]}) has an imaginary part of {eps}", "uv-auto_imag", check_autos=True)
        e, _ = verdict(x, check_autos=False)
        ctx.check(e is None, f"check_autos=False still refuses: {e}", "uv-auto-off")
        ctx.ev("uv:auto_imag")
        if op == "fix_autos":
            s = canon.snap(x)
            e, _ = verdict(x, check_autos=True, fix_autos=True)
            ctx.check(e is None, f"fix_autos=True refuses: {e}", "uv-fix-autos")
            want = s["data_array"].copy()
            # Stokes Q, U and V keep their real part (which can be negative), the others become their magnitude
            isr, sgn = np.isin(pols, REAL), np.isin(pols, (2, 3, 4))
            for i in autos:
                want[i] = np.where(isr, np.where(sgn, want[i].real, np.abs(want[i])), want[i])
            got = x.data_array
            bad = np.abs(got - want) > 1e-6 * np.abs(want) + 1e-12
            ctx.check(not bad.any(), f"fix_autos changed other samples or real parts: {np.argwhere(bad)[:3].tolist()} {got[bad][:2]} {want[bad][:2]}", "uv-fix-autos-values")
            s2 = canon.snap(x)
            dd = canon.diff(s, s2, exact=True, ignore={"data_array"})
            ctx.check(not dd, f"fix_autos changed {dd[:2]}", "uv-fix-autos-meta")
    elif op in ("auto_uvw", "cross_uvw"):
        m = np.nonzero((x.ant_1_array == x.ant_2_array) == (op == "auto_uvw"))[0]
        if not len(m):
            raise Skip("none")
        u = x.uvw_array.copy()
        i = int(gen.pick(rng, list(m)))
        u[i] = rng.normal(size=3) * 10 if op == "auto_uvw" else 0.0
        x.uvw_array = u
        ctx.case(cls, op, i, u[i])
        reject(ctx, x, f"{op}: uvw {u[i]}", f"uv-{op}")
    elif op == "strict_uvw":
        u = x.uvw_array.copy()
        m = np.nonzero(x.ant_1_array != x.ant_2_array)[0]
        if not len(m):
            raise Skip("no crosses")
        i = int(gen.pick(rng, list(m)))
        u[i, int(rng.integers(3))] += float(gen.pick(rng, [5.0, -20.0, 300.0]))
        y = x.copy()
        quiet(y.set_uvws_from_antenna_positions, update_vis=False)
        if np.abs(y.uvw_array - x.uvw_array).max() > 1e-2:
            raise Skip("made-up uvws")
        accept(ctx, x, "uvws that follow from the positions", "uv-strict-accept", strict_uvw_antpos_check=True)
        x.uvw_array = u
        ctx.case(cls, op, i, u[i])
        reject(ctx, x, f"uvw of record {i} off by metres, strict check", "uv-strict", strict_uvw_antpos_check=True)
        w = accept(ctx, x, f"uvw of record {i} off by metres", "uv-strict-off")
        ctx.check(any("uvw_array does not match" in s for s in w), f"no warning for a uvw off by metres: {w}", "uv-uvw-warn")
    elif op == "lst_warn":
        if cls == "cal" and x.time_array is None:
            n = "lst_range"
        else:
            n = "lst_array"
        w = accept(ctx, x, f"{cls}: consistent", f"{cls}-lst-accept")
        lst = getattr(x, n).copy()
        # near the wrap the warning is not reliable
        ctx.check(not any("The lst_array is not self-consistent" in s for s in w) or np.any(lst < 1e-6) or np.any(lst > 2 * np.pi - 1e-6), f"{cls}: warns about right LSTs", f"{cls}-lst-falsewarn")
        i = int(rng.integers(lst.size))
        lst.flat[i] = (lst.flat[i] + rng.uniform(0.01, 3)) % (2 * np.pi)
        setattr(x, n, lst)
        ctx.case(cls, op, n, i)
        w = accept(ctx, x, f"{cls}: LSTs that disagree with times", f"{cls}-lst")
        ctx.check(any("not self-consistent" in s for s in w), f"{cls}: no warning for an LST off by > 0.01 rad: {w[:2]}", f"{cls}-lst-warn")
    elif op == "flexpol":
        how = gen.pick(rng, ["zero", "many", "polvals", "vocab"])
        if how == "zero":
            p = x.polarization_array.copy()
            p[0] = 0
            x.polarization_array = p
        else:
            if x.Npols < 2:
                raise Skip("one pol")
            if how == "many":
                x.flex_spw_polarization_array = np.full(x.Nspws, int(x.polarization_array[0]))
            else:
                x.convert_to_flex_pol()
                accept(ctx, x, "flex-pol object", "uv-flexpol-accept")
                if how == "polvals":
                    x.polarization_array = np.array([-5])
                else:
                    a = x.flex_spw_polarization_array.copy()
                    a[0] = 11
                    x.flex_spw_polarization_array = a
        ctx.case(cls, op, how, x.polarization_array.tolist())
        reject(ctx, x, f"flexible polarization: {how}", f"uv-flexpol-{how}")
    elif op == "freq_spacing":
        for s in x.spw_array:
            k = np.nonzero(x.flex_spw_id_array == s)[0]
            if len(k) > 2:
                f = x.freq_array.copy()
                c0 = float(f[k[0]])
                f[k] = c0 + np.arange(len(k)) * 1e5
                x.channel_width = x.channel_width.copy()
                x.channel_width[k] = 1e5
                f[k[1]] += 3e4
                x.freq_array = f
                ctx.case(cls, op, f)
                accept(ctx, x, "unevenly spaced channels", "uv-freq-accept")
                reject(ctx, x, "unevenly spaced channels, spacing checked", "uv-freq-spacing", check_freq_spacing=True)
                ctx.ev("uv:freq_spacing")
                return
        raise Skip("short windows")
    elif op == "polconv":
        x.vis_units = "uncalib"
        x.pol_convention = gen.pick(rng, ["sum", "avg"])
        ctx.case(cls, op, common.describe_uv(x)[:60])
        reject(ctx, x, "pol_convention on uncalibrated data", "uv-polconv")
    elif op == "rectangular":
        x.blts_are_rectangular = False
        x.time_axis_faster_than_bls = True
        ctx.case(cls, op, common.describe_uv(x)[:60])
        reject(ctx, x, "time axis faster on a non-rectangular object", "uv-rect")
    elif op == "time_both":
        if x.time_array is not None:
            h = 1e-4
            x.time_range = np.stack([x.time_array - h, x.time_array + h], axis=1)
            x.lst_range = np.stack([x.lst_array, x.lst_array], axis=1)
            if rng.integers(2):
                x.time_array = None
        else:
            x.time_array = x.time_range.mean(axis=1)
            if rng.integers(2):
                x.lst_array = x.lst_range.mean(axis=1)
        ctx.case(cls, op, x.time_array is None, x.lst_array is None, x.Ntimes)
        reject(ctx, x, "both or mixed times and time ranges", "cal-time-both")
    elif op == "range_overlap":
        if x.time_range is None or x.Ntimes < 2:
            x = gen.make_uvcal(rng, time_range=True, ntimes=3)
        t = x.time_range.copy()
        o = rng.permutation(x.Ntimes)
        t[o[0], 1] = t[o[1]].mean() if t[o[1], 0] > t[o[0], 0] else t[o[0], 1]
        if t[o[1], 0] < t[o[0], 0]:
            t[o[1], 1] = t[o[0]].mean()
        x.time_range = t
        ctx.case(cls, op, t)
        reject(ctx, x, f"overlapping time ranges {t.tolist()}", "cal-range-overlap")
    elif op == "wide":
        if x.wide_band:
            n = gen.pick(rng, ["freq_array", "channel_width", "flex_spw_id_array"])
            setattr(x, n, np.array([1e8]) if n != "flex_spw_id_array" else np.array([int(x.spw_array[0])]))
        else:
            n = "freq_range"
            x.freq_range = np.array([[1e8, 1.1e8]] * x.Nspws)
        ctx.case(cls, op, n, x.cal_type)
        reject(ctx, x, f"{n} set with wide_band={x.wide_band}", f"cal-wide-{n}")
    elif op == "basis_long":
        if x.basis_vector_array is None:
            raise Skip("no basis vectors")
        b = x.basis_vector_array.copy()
        i = tuple(int(rng.integers(n)) for n in (b.shape[0], *b.shape[2:]))
        b[(i[0], slice(None), *i[1:])] = np.array([0.9, 0.9])[: b.shape[1]] if b.shape[1] == 2 else 0.9
        x.basis_vector_array = b
        ctx.case(cls, op, i)
        reject(ctx, x, "a basis vector longer than 1", "beam-basis")
    elif op == "auto_power":
        if x.antenna_type != "simple" and x.beam_type != "power":
            raise Skip("phased array")
        if x.beam_type != "power":
            x = quiet(x.efield_to_power, inplace=False, calc_cross_pols=True)
        if rng.integers(2) and np.iscomplexobj(x.data_array) and x.Npols <= 4:
            x.polarization_array = rng.permutation([1, 2, 3, 4])[: x.Npols]
        pi = [i for i, p in enumerate(x.polarization_array) if int(p) in (1, 2, 3, 4, -1, -2, -5, -6)]
        if not np.iscomplexobj(x.data_array) or not pi:
            raise Skip("real")
        d = x.data_array.copy()
        s = list(int(rng.integers(n)) for n in d.shape)
        s[1] = gen.pick(rng, pi)
        d[tuple(s)] += 1j * (1 + abs(d[tuple(s)]))
        x.data_array = d
        ctx.case(cls, op, s)
        reject(ctx, x, f"power beam of polarization {x.polarization_array[s[1]]} is not real", "beam-auto-power", check_auto_power=True)
        want = d.copy()
        for i in pi:
            want[:, i] = np.abs(want[:, i]) if int(x.polarization_array[i]) not in (2, 3, 4) else want[:, i].real
        sn = canon.snap(x)
        e, _ = verdict(x, check_auto_power=True, fix_auto_power=True)
        ctx.check(e is None, f"fix_auto_power=True refuses: {e}", "beam-fix")
        ctx.check(x.data_array.shape == want.shape and np.allclose(x.data_array, want, rtol=1e-6, atol=1e-12), "fix_auto_power changed values it should not", "beam-fix-values")
        dd = canon.diff(sn, canon.snap(x), exact=True, ignore={"data_array"})
        ctx.check(not dd, f"fix_auto_power changed {dd[:2]}", "beam-fix-meta")
    ctx.ev(f"{cls}:{op}")


def switches(ctx):
    rng = ctx.rng
    cls = gen.pick(rng, ["uv", "cal", "beam"])
    x = make(rng, cls)
    if rng.integers(2):
        n, v = {"uv": ("scan_number_array", np.arange(3 + (x.Nblts if cls == "uv" else 0))), "cal": ("scan_number_array", np.arange(3 + x.Ntimes if cls == "cal" else 3)), "beam": ("loss_array", np.arange(99.0))}[cls]
        setattr(x, n, v)
        ctx.case("extra", cls, len(v))
        reject(ctx, x, f"{cls}.{n} of wrong length", f"{cls}-extra-on")
        accept(ctx, x, f"{cls}.{n} of wrong length, optional parameters not checked", f"{cls}-extra-off", check_extra=False)
        ctx.ev("accept_extra_off")
    else:
        n = {"uv": "vis_units", "cal": "gain_convention", "beam": "data_normalization"}[cls]
        setattr(x, n, "bananas")
        ctx.case("accept", cls, n, str(canon.snap(x)["history"])[:20])
        reject(ctx, x, f"{cls}.{n} = bananas", f"{cls}-acceptability-on")
        accept(ctx, x, f"{cls}.{n} = bananas, acceptability not checked", f"{cls}-acceptability-off", run_check_acceptability=False)
        ctx.ev("accept_acceptability_off")


def writers(ctx):
    """whatever check() refuses, the checking writers refuse"""
    import os

    from vmon.props import c20

    rng = ctx.rng
    w = gen.pick(rng, c20.CHECKED)
    x = c20.make(rng, w)
    cls = {"uvh5": "uv", "uvfits": "uv", "miriad": "uv", "ms": "uv", "calh5": "cal", "calfits": "cal", "beamfits": "beam"}[w]
    names = [n for n in ARR[cls] if getattr(x, n) is not None and np.size(getattr(x, n)) and n not in ("baseline_array",)]
    n = gen.pick(rng, names)
    a = np.asarray(getattr(x, n))
    setattr(x, n, np.concatenate([a, np.take(a, [-1], axis=0)], axis=0))
    e, _ = verdict(x)
    ctx.case(w, n)
    ctx.check(e is not None, f"{cls}.{n} too long: accepted", f"{cls}-{n}-shape")
    p = ctx.path("t." + w)
    err = None
    try:
        c20.write(w, x, p)
    except Exception as e2:  # noqa: BLE001
        err = e2
    ctx.check(err is not None and not os.path.exists(p), f"{w}: object with {n} too long was written ({err})", f"writer-{w}")
    ctx.ev("writer:refused")


def history(ctx):
    """objects stay acceptable through operations"""
    rng = ctx.rng
    x = gen.make_uvdata(rng)
    common.random_ops(ctx, x, n=int(rng.integers(1, 5)))
    ctx.case("ops", common.describe_uv(x))
    accept(ctx, x, "object after operations", "uv-ops-accept")


def mk(f, c):
    return lambda ctx: f(c, ctx)


SCENARIOS = [Scenario(f"corrupt_{c}", mk(corrupt, c), n, 10 * n) for c, n in (("uv", 900), ("cal", 700), ("beam", 600), ("flag", 500), ("tel", 300))] + [
    Scenario(f"relations_{c}", mk(relations, c), n, 10 * n) for c, n in (("uv", 700), ("cal", 300), ("flag", 150), ("beam", 120))] + [
    Scenario("switches", switches, 60, 400), Scenario("writers", writers, 150, 1200), Scenario("history", history, 60, 600)]
