"""Independent observation of pyuvdata objects.

Nothing in here uses the comparison, copying or checking code of the library: an
object is observed through its public attributes only, and compared here.
"""
from __future__ import annotations

import os
import copy

import numpy as np

TEL_ATTRS = [
    "name", "instrument", "Nants", "antenna_names", "antenna_numbers",
    "antenna_positions", "x_orientation", "antenna_diameters",
]

ATTRS = {
    "UVData": [
        "Nants_data", "Nbls", "Nblts", "Nfreqs", "Nphase", "Npols", "Nspws", "Ntimes",
        "ant_1_array", "ant_2_array", "baseline_array", "channel_width", "data_array",
        "flag_array", "flex_spw_id_array", "freq_array", "history", "integration_time",
        "lst_array", "nsample_array", "phase_center_app_dec", "phase_center_app_ra",
        "phase_center_catalog", "phase_center_frame_pa", "phase_center_id_array",
        "polarization_array", "spw_array", "time_array", "uvw_array", "vis_units",
        "blt_order", "blts_are_rectangular", "dut1", "earth_omega", "eq_coeffs",
        "eq_coeffs_convention", "extra_keywords", "filename",
        "flex_spw_polarization_array", "gst0", "pol_convention", "rdate",
        "scan_number_array", "time_axis_faster_than_bls", "timesys",
        "uvplane_reference_time",
    ],
    "UVCal": [
        "Nants_data", "Nfreqs", "Njones", "Nspws", "Ntimes", "ant_array", "cal_style",
        "cal_type", "channel_width", "flag_array", "flex_spw_id_array", "freq_array",
        "gain_convention", "history", "integration_time", "jones_array", "spw_array",
        "wide_band", "Nphase", "Nsources", "baseline_range", "delay_array",
        "diffuse_model", "extra_keywords", "filename", "flex_jones_array", "freq_range",
        "gain_array", "gain_scale", "git_hash_cal", "git_origin_cal", "lst_array",
        "lst_range", "observer", "phase_center_catalog", "phase_center_id_array",
        "pol_convention", "quality_array", "ref_antenna_array", "ref_antenna_name",
        "scan_number_array", "sky_catalog", "time_array", "time_range",
        "total_quality_array",
    ],
    "UVBeam": [
        "Naxes_vec", "Nfreqs", "antenna_type", "bandpass_array", "beam_type",
        "data_array", "data_normalization", "feed_name", "feed_version", "freq_array",
        "history", "model_name", "model_version", "pixel_coordinate_system",
        "telescope_name", "Naxes1", "Naxes2", "Ncomponents_vec", "Nelements", "Nfeeds",
        "Npixels", "Npols", "axis1_array", "axis2_array", "basis_vector_array",
        "coupling_matrix", "delay_array", "element_coordinate_system",
        "element_location_array", "extra_keywords", "feed_array", "filename",
        "gain_array", "loss_array", "mismatch_array", "nside", "ordering",
        "pixel_array", "polarization_array", "receiver_temperature_array",
        "reference_impedance", "s_parameters", "x_orientation",
    ],
    "UVFlag": [
        "mode", "label", "type", "Ntimes", "Nbls", "Nblts", "Nspws", "Nfreqs", "Npols",
        "metric_array", "flag_array", "weights_array", "weights_square_array",
        "time_array", "lst_array", "ant_1_array", "ant_2_array", "ant_array",
        "baseline_array", "freq_array", "channel_width", "spw_array",
        "flex_spw_id_array", "polarization_array", "history", "extra_keywords",
        "Nants_data", "filename",
    ],
    "Telescope": TEL_ATTRS,
}

# default absolute tolerances: the library's own documented parameter tolerances
DEFAULT_TOLS = {
    "time_array": 1e-3 / 86400, "lst_array": 1e-8, "uvw_array": 1e-3,
    "freq_array": 1e-3, "channel_width": 1e-3, "integration_time": 1e-3,
    "phase_center_app_ra": 1e-8, "phase_center_app_dec": 1e-8,
    "phase_center_frame_pa": 5e-8, "telescope.antenna_positions": 1e-3,
    "telescope.location": 1e-3, "telescope.antenna_diameters": 1e-3,
}
ANGLES = {"lst_array", "phase_center_app_ra", "phase_center_app_dec", "phase_center_frame_pa"}


def loc_xyz(loc):
    if loc is None:
        return None
    return np.array([loc.x.to_value("m"), loc.y.to_value("m"), loc.z.to_value("m")])


def snap(obj, deep=True):
    """name -> value of every public attribute (deep copies)."""
    cls = type(obj).__name__
    for k in ("UVData", "UVCal", "UVBeam", "UVFlag", "Telescope"):
        if any(b.__name__ == k for b in type(obj).__mro__):
            cls = k
            break
    d = {}
    cp = copy.deepcopy if deep else (lambda v: v)
    for a in ATTRS[cls]:
        d[a] = cp(getattr(obj, a, None))
    if cls == "Telescope":
        d["location"] = loc_xyz(obj.location)
    elif cls != "UVBeam":
        tel = getattr(obj, "telescope", None)
        if tel is not None:
            for a in TEL_ATTRS:
                d["telescope." + a] = cp(getattr(tel, a, None))
            d["telescope.location"] = loc_xyz(tel.location)
    return d


def valdiff(a, b, atol=0.0, rtol=0.0, angle=False, path=""):
    """None when equal, else a short description."""
    if a is None or b is None:
        return None if (a is None and b is None) else f"{path}: {_s(a)} != {_s(b)}"
    if isinstance(a, dict) or isinstance(b, dict):
        if not (isinstance(a, dict) and isinstance(b, dict)):
            return f"{path}: dict vs {type(b)}"
        if set(a) != set(b):
            return f"{path}: keys {sorted(map(str, set(a) ^ set(b)))} differ"
        for k in a:
            r = valdiff(a[k], b[k], atol, rtol, angle, f"{path}[{k}]")
            if r:
                return r
        return None
    if isinstance(a, str) or isinstance(b, str):
        return None if str(a) == str(b) else f"{path}: {_s(a)} != {_s(b)}"
    if hasattr(a, "unit") or hasattr(b, "unit"):
        if getattr(a, "unit", None) != getattr(b, "unit", None):
            return f"{path}: unit differs"
        a, b = a.value, b.value
    A, B = np.asarray(a), np.asarray(b)
    if A.shape != B.shape:
        return f"{path}: shape {A.shape} != {B.shape}"
    if A.dtype.kind in "OUS" or B.dtype.kind in "OUS":
        bad = [i for i, (x, y) in enumerate(zip(A.ravel(), B.ravel())) if str(x) != str(y)]
        return f"{path}: {A.ravel()[bad[0]]!r} != {B.ravel()[bad[0]]!r} at {bad[0]}" if bad else None
    if A.dtype.kind == "b" or B.dtype.kind == "b":
        bad = A.astype(bool) != B.astype(bool)
    elif A.dtype.kind in "iu" and B.dtype.kind in "iu":
        bad = A != B
    else:
        with np.errstate(all="ignore"):
            d = np.abs(A.astype(np.clongdouble if A.dtype.kind == "c" or B.dtype.kind == "c" else np.longdouble) - B)
            if angle:
                d = np.minimum(d % (2 * np.pi), (2 * np.pi) - d % (2 * np.pi))
            bad = ~((d <= atol + rtol * np.abs(B)) | (np.isnan(A) & np.isnan(B)) | (A == B))
    bad = np.atleast_1d(bad)
    if bad.any():
        i = tuple(int(v) for v in np.argwhere(bad)[0])
        Aa, Bb = np.atleast_1d(A), np.atleast_1d(B)
        return f"{path}: {int(bad.sum())}/{bad.size} elements differ, e.g. {i}: {Aa[i]!r} != {Bb[i]!r}"
    return None


def _s(v):
    s = repr(v)
    return s if len(s) < int(os.environ.get("VMON_LONG", "80")) else s[:80] + "..."


def diff(sa, sb, *, ignore=(), tols=None, rtols=None, only=None, exact=False):
    """List of differences between two snapshots (or objects)."""
    if not isinstance(sa, dict):
        sa = snap(sa, deep=False)
    if not isinstance(sb, dict):
        sb = snap(sb, deep=False)
    out = []
    t = {} if exact else dict(DEFAULT_TOLS)
    if tols:
        t.update(tols)
    rtols = rtols or {}
    for k in sorted(set(sa) | set(sb)):
        if k in ignore or (only is not None and k not in only):
            continue
        r = valdiff(sa.get(k), sb.get(k), t.get(k, 0.0), rtols.get(k, 0.0), k in ANGLES, k)
        if r:
            out.append(r)
    return out


# --------------------------------------------------------------------------------------
# order-free view of a UVData-like object


def blt_order_index(uv):
    return np.lexsort((uv.ant_2_array, uv.ant_1_array, np.round(uv.time_array * 86400 * 100)))


def freq_order_index(uv):
    return np.lexsort((uv.freq_array, uv.flex_spw_id_array))


def pol_order_index(uv):
    return np.argsort(uv.polarization_array, kind="stable")


BLT1 = [
    "ant_1_array", "ant_2_array", "baseline_array", "time_array", "lst_array",
    "uvw_array", "integration_time", "phase_center_app_ra", "phase_center_app_dec",
    "phase_center_frame_pa", "scan_number_array",
]


def ledger(uv, *, spw_ids=True, catalog=True, keep_blts=False):
    """All measurements and per-axis metadata, in a canonical axis order.

    spw_ids=False describes the windows by their channels and not by their ids (for
    formats that renumber them); catalog=False leaves out the catalog text.
    """
    b = np.arange(uv.Nblts) if keep_blts else blt_order_index(uv)
    f = freq_order_index(uv) if spw_ids else np.argsort(uv.freq_array, kind="stable")
    p = pol_order_index(uv)
    d = {}
    for a in BLT1:
        v = getattr(uv, a)
        d[a] = None if v is None else np.asarray(v)[b].copy()
    d["freq_array"] = uv.freq_array[f].copy()
    d["channel_width"] = uv.channel_width[f].copy()
    ids = uv.flex_spw_id_array[f]
    if spw_ids:
        d["flex_spw_id_array"] = ids.copy()
    else:
        seen = {}
        d["window_of_channel"] = np.array([seen.setdefault(int(i), len(seen)) for i in ids])
    if uv.eq_coeffs is not None:
        d["eq_coeffs"] = uv.eq_coeffs[:, f].copy()
    d["polarization_array"] = uv.polarization_array[p].copy()
    so = np.argsort(uv.spw_array)
    if spw_ids:
        d["spw_array"] = np.asarray(uv.spw_array)[so].copy()
    if uv.flex_spw_polarization_array is not None:
        d["flex_spw_polarization_array"] = np.asarray(uv.flex_spw_polarization_array)[so].copy()
    for a in ("data_array", "flag_array", "nsample_array"):
        v = getattr(uv, a)
        d[a] = None if v is None else v[np.ix_(b, f, p)].copy()
    # phase center of every record, by content rather than by catalog id
    ents, names = [], []
    keys = {k: _cat_key(v) for k, v in uv.phase_center_catalog.items()}
    for i in b:
        k = int(uv.phase_center_id_array[i])
        ents.append(keys.get(k, "MISSING"))
        names.append(uv.phase_center_catalog.get(k, {}).get("cat_name", "MISSING"))
    if catalog:
        d["phase_center"] = np.array(ents, dtype=object)
    d["phase_center_name"] = np.array(names, dtype=object)
    for a in ("vis_units", "pol_convention", "Nblts", "Ntimes", "Nbls", "Nfreqs", "Npols",
              "Nspws", "Nants_data"):
        d[a] = copy.deepcopy(getattr(uv, a))
    ao = np.argsort(uv.telescope.antenna_numbers)
    for a in TEL_ATTRS:
        v = copy.deepcopy(getattr(uv.telescope, a))
        if a.startswith("antenna_") and v is not None:
            v = np.asarray(v)[ao]
        d["telescope." + a] = v
    d["telescope.location"] = loc_xyz(uv.telescope.location)
    return d


def _cat_key(ent):
    if ent is None:
        return "MISSING"
    out = []
    for k in sorted(ent):
        if k == "info_source":
            continue
        v = ent[k]
        if v is None:
            continue
        if isinstance(v, (float, np.floating)):
            v = f"{float(v):.9g}"
        elif isinstance(v, np.ndarray):
            v = np.array2string(v, precision=9)
        out.append(f"{k}={v}")
    return ";".join(out)


def counts_consistent(uv):
    """Derived counters agree with the arrays they describe. List of problems."""
    out = []

    def eq(name, got, want):
        if got != want:
            out.append(f"{name}={got} but arrays say {want}")

    eq("Nblts", uv.Nblts, len(uv.time_array))
    eq("Ntimes", uv.Ntimes, len(np.unique(uv.time_array)))
    eq("Nbls", uv.Nbls, len(set(zip(uv.ant_1_array.tolist(), uv.ant_2_array.tolist()))))
    eq("Nants_data", uv.Nants_data, len(set(uv.ant_1_array.tolist()) | set(uv.ant_2_array.tolist())))
    eq("Nfreqs", uv.Nfreqs, len(uv.freq_array))
    eq("Nspws", uv.Nspws, len(uv.spw_array))
    eq("Npols", uv.Npols, len(uv.polarization_array))
    eq("Nphase", uv.Nphase, len(uv.phase_center_catalog))
    if not set(np.unique(uv.phase_center_id_array).tolist()) <= set(uv.phase_center_catalog):
        out.append("phase_center_id_array has ids missing from the catalog")
    if not set(np.unique(uv.flex_spw_id_array).tolist()) <= set(np.asarray(uv.spw_array).tolist()):
        out.append("flex_spw_id_array has ids missing from spw_array")
    for a in ("ant_1_array", "ant_2_array", "baseline_array", "lst_array", "integration_time",
              "phase_center_id_array", "phase_center_app_ra", "phase_center_app_dec",
              "phase_center_frame_pa"):
        eq(f"len({a})", len(getattr(uv, a)), uv.Nblts)
    sh = (uv.Nblts, uv.Nfreqs, uv.Npols)
    for a in ("data_array", "flag_array", "nsample_array"):
        v = getattr(uv, a)
        if v is not None:
            eq(f"shape({a})", v.shape, sh)
    # baseline numbers identify antenna pairs
    pairs = {}
    for b, a1, a2 in zip(uv.baseline_array.tolist(), uv.ant_1_array.tolist(), uv.ant_2_array.tolist()):
        if pairs.setdefault(b, (a1, a2)) != (a1, a2):
            out.append(f"baseline number {b} used for two antenna pairs")
            break
    if len(set(pairs.values())) != len(pairs):
        out.append("one antenna pair has two baseline numbers")
    return out


def blt_claims(uv, order=True):
    """Truth of the optional claims the object makes about its baseline-time axis."""
    out = []
    t = uv.time_array
    pairs = list(zip(uv.ant_1_array.tolist(), uv.ant_2_array.tolist()))
    if uv.blts_are_rectangular:
        nt, nb = len(np.unique(t)), len(set(pairs))
        ok = nt * nb == len(t)
        if ok:
            if uv.time_axis_faster_than_bls:
                P = [pairs[i * nt:(i + 1) * nt] for i in range(nb)]
                T = t.reshape(nb, nt)
                ok = all(len(set(x)) == 1 for x in P) and np.all(T == T[:1])
            else:
                T = t.reshape(nt, nb)
                P = [pairs[i * nb:(i + 1) * nb] for i in range(nt)]
                ok = bool(np.all(T == T[:, :1])) and all(x == P[0] for x in P)
        if not ok:
            out.append(
                f"claims a rectangular baseline-time axis (time fastest: "
                f"{uv.time_axis_faster_than_bls}) but it is not")
    if uv.blt_order is not None and order:
        keys = {
            "time": t, "baseline": uv.baseline_array, "ant1": uv.ant_1_array,
            "ant2": uv.ant_2_array, "bda": None,
        }
        o = tuple(uv.blt_order)
        if o[0] != "bda" and len(t) > 1:
            major = keys[o[0]]
            if np.any(major[1:] < major[:-1]):
                out.append(f"claims blt_order {o} but {o[0]} decreases along the axis")
            elif len(o) > 1 and keys[o[1]] is not None:
                minor = keys[o[1]]
                same = major[1:] == major[:-1]
                if np.any((minor[1:] < minor[:-1])[same]):
                    out.append(f"claims blt_order {o} but {o[1]} decreases within {o[0]}")
    return out


CONJ_POL = {-3: -4, -4: -3, -7: -8, -8: -7}


def oriented(uv, *, low_first=True, **kw):
    """Ledger of the object with every baseline oriented the same way (ours, not the
    library's, definition of baseline conjugation)."""
    import types

    v = types.SimpleNamespace()
    for a in ATTRS["UVData"]:
        setattr(v, a, copy.deepcopy(getattr(uv, a, None)))
    v.telescope = uv.telescope
    flip = (v.ant_1_array > v.ant_2_array) if low_first else (v.ant_1_array < v.ant_2_array)
    a1 = v.ant_1_array.copy()
    v.ant_1_array = np.where(flip, v.ant_2_array, v.ant_1_array)
    v.ant_2_array = np.where(flip, a1, v.ant_2_array)
    v.uvw_array = np.where(flip[:, None], -v.uvw_array, v.uvw_array)
    pols = [int(p) for p in v.polarization_array]
    src = [pols.index(CONJ_POL.get(p, p)) for p in pols]
    if v.data_array is not None:
        v.data_array = np.where(flip[:, None, None], np.conj(v.data_array[:, :, src]), v.data_array)
        v.flag_array = np.where(flip[:, None, None], v.flag_array[:, :, src], v.flag_array)
        v.nsample_array = np.where(flip[:, None, None], v.nsample_array[:, :, src], v.nsample_array)
    v.Nbls = len(set(zip(v.ant_1_array.tolist(), v.ant_2_array.tolist())))
    d = ledger(v, **kw)
    d.pop("baseline_array")
    return d


def dictdiff(a, b, *, ignore=(), tols=None, rtols=None, exact=False):
    t = {} if exact else dict(DEFAULT_TOLS)
    t.update(tols or {})
    rtols = rtols or {}
    out = []
    for k in sorted(set(a) | set(b)):
        if k in ignore:
            continue
        r = valdiff(a.get(k), b.get(k), t.get(k, 0.0), rtols.get(k, 0.0), k in ANGLES, k)
        if r:
            out.append(r)
    return out
