"""Order-free view of UVCal objects, made from public attributes only."""
import numpy as np

from vmon import canon

SCALARS = ["cal_style", "cal_type", "gain_convention", "wide_band", "gain_scale", "pol_convention", "observer", "git_hash_cal", "git_origin_cal",
           "ref_antenna_name", "sky_catalog", "Nsources", "diffuse_model", "baseline_range"]
TELK = ["telescope." + a for a in canon.TEL_ATTRS] + ["telescope.location"]


def tkeys(c):
    if c.time_range is not None:
        return [tuple(np.round(r * 86400, 2)) for r in c.time_range]
    return [(round(float(t) * 86400, 2),) for t in c.time_array]


def fkeys(c):
    """(spw id, frequency or range) of every element of the frequency axis."""
    if c.wide_band:
        return [(int(s), tuple(np.round(r, 1))) for s, r in zip(c.spw_array, c.freq_range)]
    return [(int(s), round(float(f), 1)) for s, f in zip(c.flex_spw_id_array, c.freq_array)]


def jkeys(c):
    return [int(j) for j in c.jones_array]


def sol(c):
    """{(ant, fkey, tkey, jones): (value, flag, quality)}, {(fkey, tkey, jones): total quality}"""
    data = c.gain_array if c.cal_type == "gain" else c.delay_array
    T, F, J = tkeys(c), fkeys(c), jkeys(c)
    fj = None
    if c.flex_jones_array is not None:
        fj = dict(zip(np.asarray(c.spw_array).tolist(), np.asarray(c.flex_jones_array).tolist()))
    out, tot = {}, {}
    for fi, f in enumerate(F):
        for ti, t in enumerate(T):
            for ji, j in enumerate([fj[f[0]]] if fj is not None else J):
                for ai, a in enumerate(np.asarray(c.ant_array).tolist()):
                    q = None if c.quality_array is None else float(c.quality_array[ai, fi, ti, ji])
                    k = (a, f, t, j)
                    assert k not in out, k
                    out[k] = (data[ai, fi, ti, ji].item(), bool(c.flag_array[ai, fi, ti, ji]), q)
                if c.total_quality_array is not None:
                    tot[(f, t, j)] = float(c.total_quality_array[fi, ti, ji])
    return out, tot


def tmeta(c):
    """per time: everything the object says about it."""
    out = {}
    for i, t in enumerate(tkeys(c)):
        pc = None
        if c.phase_center_id_array is not None:
            pc = canon._cat_key(c.phase_center_catalog.get(int(c.phase_center_id_array[i])))
        out[t] = (
            round(float(c.integration_time[i]), 4),
            None if c.lst_array is None else round(float(c.lst_array[i]), 8),
            None if c.lst_range is None else tuple(np.round(c.lst_range[i], 8)),
            pc,
            None if c.ref_antenna_array is None else int(c.ref_antenna_array[i]),
            None if c.scan_number_array is None else int(c.scan_number_array[i]),
        )
    return out


def fmeta(c):
    if c.wide_band:
        return {k: None for k in fkeys(c)}
    return {k: round(float(w), 1) for k, w in zip(fkeys(c), c.channel_width)}


def counts(c):
    out = []

    def eq(n, g, w):
        if g != w:
            out.append(f"{n}={g}, arrays say {w}")

    eq("Nants_data", c.Nants_data, len(c.ant_array))
    nt = len(c.time_range) if c.time_range is not None else len(c.time_array)
    eq("Ntimes", c.Ntimes, nt)
    eq("Njones", c.Njones, len(c.jones_array))
    eq("Nspws", c.Nspws, len(c.spw_array))
    if not c.wide_band:
        eq("Nfreqs", c.Nfreqs, len(c.freq_array))
        if not set(np.asarray(c.flex_spw_id_array).tolist()) == set(np.asarray(c.spw_array).tolist()):
            out.append("flex_spw_id_array and spw_array disagree")
    if c.phase_center_catalog is not None:
        eq("Nphase", c.Nphase, len(c.phase_center_catalog))
    nf = c.Nspws if c.wide_band else c.Nfreqs
    sh = (len(c.ant_array), nf, nt, c.Njones)
    for a in ("gain_array", "delay_array", "flag_array", "quality_array"):
        v = getattr(c, a)
        if v is not None:
            eq(f"shape({a})", v.shape, sh)
    if c.total_quality_array is not None:
        eq("shape(total_quality_array)", c.total_quality_array.shape, sh[1:])
    return out


def describe(c):
    return (c.cal_type, c.cal_style, bool(c.wide_band), c.Nants_data, c.Nspws, c.Nfreqs, c.Ntimes, c.jones_array.tolist(), c.time_range is not None,
            c.quality_array is not None, c.total_quality_array is not None, c.phase_center_catalog is not None)


def soldiff(a, b, tol=0.0):
    """first difference of two solution dicts with equal keys expected"""
    if set(a) != set(b):
        x = sorted(map(str, set(a) ^ set(b)))
        return f"{len(x)} solutions only on one side, e.g. {x[0]}"
    for k, v in a.items():
        w = b[k]
        if isinstance(v, tuple):
            if abs(v[0] - w[0]) > tol * abs(v[0]) or v[1] != w[1] or (v[2] is None) != (w[2] is None) or (v[2] is not None and abs(v[2] - w[2]) > tol * abs(v[2])):
                return f"solution {k}: {v} became {w}"
        elif v != w and not (isinstance(v, float) and abs(v - w) <= tol * abs(v)):
            return f"{k}: {v} became {w}"
    return None


def mdiff(a, b):
    """first differing entry of two metadata dicts (exact)"""
    for k in a:
        if k not in b:
            return f"{k} is gone"
        if a[k] != b[k]:
            return f"{k}: {a[k]} became {b[k]}"
    for k in b:
        if k not in a:
            return f"{k} is new"
    return None
