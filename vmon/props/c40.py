"""C40 Objects built from scratch hold what was given; phase-center bookkeeping moves no data."""
import copy
import warnings

import numpy as np
from astropy.time import Time

from pyuvdata import UVBeam, UVCal, UVData
from pyuvdata.uvbeam.initializers import new_uvbeam
from pyuvdata.uvcal.initializers import new_uvcal_from_uvdata
from vmon import canon, gen
from vmon.core import Scenario, Skip
from vmon.props import calcommon as cc
from vmon.props import common

RULE = (
    "objects are built with the public constructors from unsorted times, shuffled and reversed antenna pairs, outer products in both layouts, scalar, per-time and derived "
    "integration times and channel widths, string and integer polarizations with both orientations, and value-tagged data; the result is compared record by record with an "
    "independent construction; phase-center rename/split/merge sequences are compared with a per-record ledger. non-trivial = distinct (constructor, layout, options)"
)
REQUIRED = ["uv_outer_time_slow", "uv_outer_time_fast", "uv_flat", "uv_unsorted_times", "uv_int_scalar", "uv_int_array", "uv_int_derived", "uv_width_scalar", "uv_width_derived",
            "uv_default_pairs", "uv_strpol", "uv_strpol_orient", "uv_empty", "uv_data", "uv_meta", "uv_refused", "uv_catalog",
            "cal_gain", "cal_delay", "cal_wide_gain", "cal_range", "cal_data", "cal_empty", "cal_refused",
            "from_uv", "from_uv_subset_numbers", "from_uv_subset_names", "from_uv_ants", "from_uv_wide",
            "beam_efield", "beam_power", "beam_healpix", "beam_axes", "beam_pcs", "beam_strpol", "beam_refused",
            "pc_rename", "pc_split", "pc_split_all", "pc_split_none", "pc_merge", "pc_merge_names", "pc_merge_overlap", "pc_refused"]
PN = {"xx": -5, "yy": -6, "xy": -7, "yx": -8, "rr": -1, "ll": -2, "rl": -3, "lr": -4, "pI": 1, "pQ": 2, "pU": 3, "pV": 4}
EN = {"east": {"ee": -5, "nn": -6, "en": -7, "ne": -8}, "north": {"nn": -5, "ee": -6, "ne": -7, "en": -8}}


def q(fn, *a, **k):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return fn(*a, **k)


def refused(ctx, fn, *a, exc=(ValueError, TypeError), what="", **k):
    try:
        q(fn, *a, **k)
    except exc:
        return True
    ctx.check(False, f"{what} was accepted")
    return False


def _lst(t, loc):
    return np.array([Time(x, format="jd", scale="utc", location=loc).sidereal_time("apparent").rad for x in np.atleast_1d(t)])


def _derived_int(t):
    """successive differences of the (sorted, unique) times, last one repeated"""
    u = np.array(sorted(set(np.asarray(t).tolist())))
    d = np.diff(u) * 86400
    d = np.append(d, d[-1])
    m = dict(zip(u.tolist(), d.tolist()))
    return np.array([m[x] for x in np.asarray(t).tolist()])


def uv_new(ctx):
    rng = ctx.rng
    xo = gen.pick(rng, ["east", "north"])
    tel = gen.make_telescope(rng, nants=int(rng.integers(2, 6)), x_orientation=xo)
    times, dt = gen.make_times(rng, ntimes=int(rng.integers(1, 6)))
    if rng.integers(2):
        times = times[rng.permutation(len(times))]
    default = rng.integers(5) == 0
    pairs = gen.make_antpairs(rng, tel.antenna_numbers) if not default else None
    nums = tel.antenna_numbers.tolist()
    eff = pairs if pairs is not None else [(nums[i], nums[j]) for i in range(len(nums)) for j in range(i, len(nums))]
    nt, nb = len(times), len(eff)
    layout = gen.pick(rng, ["outer", "outer", "flat"]) if not default else "outer"
    kw = {}
    fast = None
    imode = gen.pick(rng, ["scalar", "array", "derived"])
    if layout == "outer":
        fast = gen.pick(rng, [None, False, True])
        if fast is not None:
            kw["time_axis_faster_than_bls"] = fast
        if not default and (nt == nb or rng.integers(2)):
            kw["do_blt_outer"] = True
        elif not default:
            # the constructor has to work out that this is an outer product
            pass
        t_in, p_in = times, pairs
        if fast:
            want = [(t, b) for b in range(nb) for t in range(nt)]
        else:
            want = [(t, b) for t in range(nt) for b in range(nb)]
    else:
        want = [(t, b) for t in range(nt) for b in range(nb)]
        how = gen.pick(rng, ["time", "bl", "shuffle", "ragged"])
        if how == "bl":
            want = [(t, b) for b in range(nb) for t in range(nt)]
        elif how != "time":
            want = [want[i] for i in rng.permutation(len(want))]
            if how == "ragged":
                want = want[: max(1, int(0.7 * len(want)))]
        kw["do_blt_outer"] = False
        t_in = times[[w[0] for w in want]]
        p_in = [eff[w[1]] for w in want]
        if len(want) == nt * nb and how in ("time", "bl") and nt > 1 and nb > 1 and rng.integers(2):
            kw["blts_are_rectangular"] = True
    if p_in is not None:
        kw["antpairs"] = gen.pick(rng, [p_in, np.array(p_in), [tuple(p) for p in p_in]])
    if len(set(np.asarray(t_in).tolist())) < 2 and imode == "derived":
        imode = "scalar"
    if imode == "scalar":
        kw["integration_time"] = dt
        it_in = np.full(len(t_in), dt)
    elif imode == "array":
        it_in = rng.uniform(0.5, 20, len(t_in))
        kw["integration_time"] = it_in.copy()
    else:
        it_in = _derived_int(t_in)
    it_want = it_in[[w[0] for w in want]] if layout == "outer" else it_in
    f, w, s = gen.make_freqs(rng)
    wmode = gen.pick(rng, ["scalar", "array", "derived"])
    if wmode == "derived":
        f, w, s = gen.make_freqs(rng, nspw=1, ascending=True)
        if len(f) < 2:
            wmode = "array"
    if wmode == "scalar":
        kw["channel_width"] = 1.5e5
        w = np.full(len(f), 1.5e5)
    elif wmode == "array":
        kw["channel_width"] = w.copy()
    else:
        w = np.append(np.diff(f), np.diff(f)[-1])
    if len(set(s.tolist())) > 1 or rng.integers(2):
        kw["flex_spw_id_array"] = s.copy()
    else:
        s = np.zeros(len(f), dtype=int)
    pmode = gen.pick(rng, ["int", "str", "orient"])
    if pmode == "int":
        pols = gen.make_pols(rng)
        p_arg = pols
    else:
        tab = PN if pmode == "str" else EN[xo]
        ks = list(tab)
        if pmode == "str":
            ks = gen.pick(rng, [ks[:4], ks[4:8], ks[8:]])
        n = int(rng.integers(1, 5))
        names = [ks[i] for i in rng.permutation(4)[:n]]
        pols = np.array([tab[k] for k in names])
        p_arg = gen.pick(rng, [names, np.array(names), tuple(names)])
        if pmode == "orient":
            kw["x_orientation"] = xo  # the documented way to give a meaning to "ee", "nn"
    nblt = len(want)
    shape = (nblt, len(f), len(pols))
    content = gen.pick(rng, ["meta", "empty", "data", "data"])
    data = gen.unique_complex(rng, shape)
    ap = np.array([eff[b] for _, b in want])
    au = ap[:, 0] == ap[:, 1]
    data[au] = data[au].real
    flags, ns = rng.random(shape) < 0.3, rng.integers(1, 9, shape) / 4.0
    if content == "empty":
        kw["empty"] = True
    elif content == "data":
        kw["data_array"] = data.copy()
        if rng.integers(3):
            kw["flag_array"] = flags.copy()
        else:
            flags = np.zeros(shape, bool)
        if rng.integers(3):
            kw["nsample_array"] = ns.copy()
        else:
            ns = np.ones(shape)
    # phase centers
    cat = None
    if rng.integers(2):
        n = min(int(rng.integers(1, 4)), nblt)
        cat = gen.zen_catalog(rng, tel, float(times[0]), n=n)
        ids = list(cat)
        kw["phase_center_catalog"] = copy.deepcopy(cat)
        pcid = np.array([ids[int(rng.integers(n))] for _ in range(nblt)])
        if n > 1 or rng.integers(2):
            kw["phase_center_id_array"] = pcid.copy()
        ctx.ev("uv_catalog")
    units = gen.pick(rng, [None, "Jy", "K str", "uncalib"])
    if units:
        kw["vis_units"] = units
    if rng.integers(2):
        kw["extra_keywords"] = {"A": 3}
    ctx.case(layout, fast, default, imode, wmode, pmode, content, nt, nb, kw.get("do_blt_outer"), cat is not None, float(times[0]))
    if layout == "outer" and "do_blt_outer" not in kw and not default and nt == nb:
        raise Skip("ambiguous")
    stel = canon.snap(tel)
    t_keep = np.array(t_in, copy=True)
    uv = q(UVData.new, freq_array=f.copy(), polarization_array=p_arg, times=np.array(t_in, copy=True), telescope=tel, history="mine. ", **kw)
    what = f"UVData.new({layout}, time faster: {fast}, integration {imode}, pols {pmode}, times sorted: {bool(np.all(np.diff(times) > 0))})"
    ctx.check(not canon.diff(stel, tel, exact=True), f"{what} changed the telescope it was given")
    ctx.check(uv.Nblts == nblt, f"{what}: {uv.Nblts} records, expected {nblt}")
    ctx.check(np.array_equal(uv.time_array, times[[w_[0] for w_ in want]]) if layout == "outer" else np.array_equal(uv.time_array, t_keep), f"{what}: times", mech="blt-order")
    ctx.check(np.array_equal(np.stack([uv.ant_1_array, uv.ant_2_array], 1), ap), f"{what}: antenna pairs", mech="blt-order")
    ctx.check(np.allclose(uv.integration_time, it_want, rtol=1e-9), lambda: f"{what}: integration times {uv.integration_time[:4]}, expected {it_want[:4]}", mech="int-time")
    dl = np.angle(np.exp(1j * (uv.lst_array - _lst(uv.time_array, tel.location))))
    ctx.check(np.max(np.abs(dl)) < 1e-6, lambda: f"{what}: LSTs do not belong to the times: off by {np.max(np.abs(dl))} rad", mech="lst")
    ctx.check(np.array_equal(uv.freq_array, f) and np.allclose(uv.channel_width, w) and np.array_equal(uv.flex_spw_id_array, s), f"{what}: frequency axis ({wmode})")
    ctx.check(np.array_equal(uv.polarization_array, pols), lambda: f"{what}: polarizations {uv.polarization_array} for {p_arg} (x is {xo})", mech="pol-strings")
    ctx.check(uv.telescope.x_orientation == xo and uv.vis_units == (units or "uncalib") and uv.history.startswith("mine. "), f"{what}: units, history, orientation")
    if content == "meta":
        ctx.check(uv.metadata_only, f"{what}: not metadata only")
    elif content == "empty":
        ctx.check(not np.any(uv.data_array) and not np.any(uv.flag_array) and uv.data_array.shape == shape, f"{what}: empty object")
    else:
        ctx.check(np.array_equal(uv.data_array, data) and np.array_equal(uv.flag_array, flags) and np.array_equal(uv.nsample_array, ns), f"{what}: data")
    if cat is None:
        ctx.check([c["cat_type"] for c in uv.phase_center_catalog.values()] == ["unprojected"], f"{what}: default catalog")
    else:
        for i in range(nblt):
            e = cat[int(pcid[i])] if "phase_center_id_array" in kw else cat[ids[0]]
            g = uv.phase_center_catalog[int(uv.phase_center_id_array[i])]
            ctx.check(g["cat_name"] == e["cat_name"] and g["cat_type"] == e["cat_type"] and g["cat_lon"] == e["cat_lon"] and g["cat_lat"] == e["cat_lat"], f"{what}: phase center of record {i}")
    common.sane(ctx, uv, what)
    # geometry: the same object, made record by record
    flat = q(UVData.new, freq_array=f.copy(), polarization_array=pols, times=uv.time_array.copy(), telescope=tel, antpairs=ap, do_blt_outer=False, integration_time=it_want,
             channel_width=w, flex_spw_id_array=s, **({"phase_center_catalog": copy.deepcopy(cat), "phase_center_id_array": uv.phase_center_id_array.copy()} if cat else {}))
    for a in ("uvw_array", "phase_center_app_ra", "phase_center_app_dec", "phase_center_frame_pa"):
        ctx.check(np.allclose(getattr(uv, a), getattr(flat, a), atol=1e-7), f"{what}: {a}")
    for e in (f"uv_{layout}" if layout == "flat" else f"uv_outer_time_{'fast' if fast else 'slow'}", f"uv_int_{imode}", f"uv_{content}"):
        ctx.ev(e)
    if wmode != "array":
        ctx.ev(f"uv_width_{wmode}")
    if pmode != "int":
        ctx.ev("uv_strpol" if pmode == "str" else "uv_strpol_orient")
    if default:
        ctx.ev("uv_default_pairs")
    if np.any(np.diff(times) < 0):
        ctx.ev("uv_unsorted_times")
    # refusals
    base = dict(freq_array=f, polarization_array=pols, times=uv.time_array, telescope=tel, antpairs=ap, do_blt_outer=False, integration_time=it_want, channel_width=w, flex_spw_id_array=s)
    bad = gen.pick(rng, ["shape", "int", "width", "units", "len", "key", "dup", "nopcid"])
    if bad == "shape":
        base["data_array"] = data[:, :, :1].repeat(len(pols) + 1, 2)
    elif bad == "int":
        base["integration_time"] = np.ones(nblt + 1)
    elif bad == "width":
        base["channel_width"] = np.ones(len(f) + 1)
    elif bad == "units":
        base["vis_units"] = "furlong"
    elif bad == "len":
        base["times"] = np.append(uv.time_array, uv.time_array[-1:])
        base["integration_time"] = 1.0
    elif bad == "key":
        base["no_such_thing"] = 3
    elif bad == "dup":
        base.update(times=np.append(times, times[0]), antpairs=np.array(eff), do_blt_outer=True, integration_time=1.0)
    else:
        c2 = gen.zen_catalog(rng, tel, float(times[0]), n=2)
        base["phase_center_catalog"] = c2
    refused(ctx, UVData.new, what=f"UVData.new with bad {bad}", **base)
    ctx.ev("uv_refused")


def cal_new(ctx):
    rng = ctx.rng
    xo = gen.pick(rng, ["east", "north"])
    tel = gen.make_telescope(rng, nants=int(rng.integers(2, 7)), x_orientation=xo)
    kind = gen.pick(rng, ["gain", "gain", "delay", "wide_gain"])
    kw = dict(telescope=tel, gain_convention=gen.pick(rng, ["divide", "multiply"]))
    style = gen.pick(rng, ["redundant", "sky"])
    kw["cal_style"] = style
    if style == "sky":
        kw.update(ref_antenna_name=str(tel.antenna_names[0]), sky_catalog="cat")
    times, dt = gen.make_times(rng)
    if rng.integers(2):
        times = times[rng.permutation(len(times))]
    nt = len(times)
    isr = rng.integers(3) == 0
    imode = gen.pick(rng, ["scalar", "array", "derived"])
    if isr:
        o = np.argsort(times)
        tr = np.stack([times, times + dt / 2 / 86400], 1)
        kw["time_range"] = tr.copy()
        it = (tr[:, 1] - tr[:, 0]) * 86400
        if nt == 1 and imode == "derived":
            imode = "array"
        ctx.ev("cal_range")
    else:
        kw["time_array"] = times.copy()
        if nt == 1 and imode == "derived":
            imode = "scalar"
        it = _derived_int(times) if imode == "derived" else None
    if imode == "scalar":
        kw["integration_time"] = dt
        it = np.full(nt, dt)
    elif imode == "array":
        it = rng.uniform(1, 30, nt)
        kw["integration_time"] = it.copy()
    if kind == "gain":
        f, w, s = gen.make_freqs(rng)
        kw.update(freq_array=f.copy(), channel_width=w.copy(), flex_spw_id_array=s.copy())
        nf = len(f)
    else:
        nspw = int(rng.integers(1, 4))
        f0 = np.sort(rng.uniform(1e8, 2e8, nspw))
        fr = np.stack([f0, f0 + 1e6], 1)
        kw["freq_range"] = fr.copy()
        if kind == "wide_gain":
            kw["cal_type"] = "gain"
        elif rng.integers(2):
            kw["cal_type"] = "delay"
        nf = nspw
    jm = gen.pick(rng, ["int", "str", "orient", "word"])
    if jm == "int":
        jones = gen.make_jones(rng)
        jarg = jones
    elif jm == "word":
        jarg = gen.pick(rng, ["linear", "circular"])
        jones = np.array([-5, -6, -7, -8]) if jarg == "linear" else np.array([-1, -2, -3, -4])
    else:
        tab = {"Jxx": -5, "Jyy": -6, "Jxy": -7, "Jyx": -8} if jm == "str" else {"J" + k: v for k, v in EN[xo].items()}
        ks = list(tab)
        names = [ks[i] for i in rng.permutation(4)[: int(rng.integers(1, 5))]]
        jarg, jones = names, np.array([tab[k] for k in names])
    ants = tel.antenna_numbers
    if rng.integers(2):
        ants = rng.permutation(ants)[: int(rng.integers(1, len(ants) + 1))]
        kw["ant_array"] = ants.copy()
    shape = (len(ants), nf, nt, len(jones))
    content = gen.pick(rng, ["meta", "empty", "data"])
    cname = "delay_array" if kind == "delay" else "gain_array"
    val = gen.unique_complex(rng, shape)
    if kind == "delay":
        val = val.real * 1e-9
    flags = rng.random(shape) < 0.3
    ql = rng.random(shape)
    if content == "empty":
        kw["empty"] = True
    elif content == "data":
        kw["data"] = {cname: val.copy(), "flag_array": flags.copy()}
        if rng.integers(2):
            kw["data"]["quality_array"] = ql.copy()
    ctx.case(kind, style, isr, imode, jm, content, len(ants), nt, float(times[0]))
    stel = canon.snap(tel)
    c = q(UVCal.new, jones_array=jarg, history="mine. ", **kw)
    what = f"UVCal.new({kind}, range: {isr}, integration {imode}, jones {jm})"
    ctx.check(not canon.diff(stel, tel, exact=True), f"{what} changed the telescope")
    p = cc.counts(c)
    ctx.check(not p, f"{what}: {p}")
    ctx.check(np.array_equal(c.ant_array, ants), f"{what}: antennas")
    ctx.check(np.array_equal(c.jones_array, jones), lambda: f"{what}: jones {c.jones_array} for {jarg} (x is {xo})")
    ctx.check(np.allclose(c.integration_time, it, rtol=1e-9), lambda: f"{what}: integration times {c.integration_time}, expected {it}", mech="int-time")
    if isr:
        ctx.check(np.array_equal(c.time_range, tr) and c.time_array is None, f"{what}: time ranges")
        g, x = c.lst_range, np.stack([_lst(tr[:, 0], tel.location), _lst(tr[:, 1], tel.location)], 1)
    else:
        ctx.check(np.array_equal(c.time_array, times), f"{what}: times")
        g, x = c.lst_array, _lst(times, tel.location)
    ctx.check(np.max(np.abs(np.angle(np.exp(1j * (g - x))))) < 1e-6, f"{what}: LSTs", mech="lst")
    if kind == "gain":
        ctx.check(np.array_equal(c.freq_array, f) and np.array_equal(c.channel_width, w) and np.array_equal(c.flex_spw_id_array, s) and not c.wide_band, f"{what}: frequencies")
    else:
        ctx.check(np.array_equal(c.freq_range, fr) and c.wide_band, f"{what}: frequency ranges")
    ctx.check(c.cal_type == ("delay" if kind == "delay" else "gain") and c.cal_style == style and c.gain_convention == kw["gain_convention"], f"{what}: type, style, convention")
    if content == "meta":
        ctx.check(c.metadata_only, f"{what}: not metadata only")
    elif content == "empty":
        ctx.check(np.all(getattr(c, cname) == (0 if kind == "delay" else 1)) and not np.any(c.flag_array), f"{what}: empty object")
        ctx.ev("cal_empty")
    else:
        ctx.check(np.array_equal(getattr(c, cname), val) and np.array_equal(c.flag_array, flags), f"{what}: solutions")
        ctx.check((c.quality_array is None) == ("quality_array" not in kw["data"]) and (c.quality_array is None or np.array_equal(c.quality_array, ql)), f"{what}: qualities")
        ctx.ev("cal_data")
    ctx.ev("cal_" + kind)
    b = dict(kw, jones_array=jarg)
    bad = gen.pick(rng, ["ant", "style", "both", "none", "skyinfo", "xor", "key", "shape"])
    if bad == "ant":
        b["ant_array"] = np.append(ants, 99999)
    elif bad == "style":
        b["cal_style"] = "best"
    elif bad == "both":
        b.update(freq_array=np.array([1e8, 2e8]), freq_range=np.array([[1e8, 2e8]]), channel_width=1e6)
    elif bad == "none":
        for k in ("freq_array", "freq_range", "channel_width", "flex_spw_id_array"):
            b.pop(k, None)
    elif bad == "skyinfo":
        b["cal_style"] = "sky"
        b.pop("sky_catalog", None)
    elif bad == "xor":
        t2 = tel.copy()
        t2.x_orientation = None
        b["telescope"] = t2
    elif bad == "key":
        b["no_such_thing"] = 1
    else:
        b["data"] = {cname: val[..., :1].repeat(len(jones) + 1, -1)}
    refused(ctx, UVCal.new, what=f"UVCal.new with bad {bad}", **b)
    ctx.ev("cal_refused")


def from_uv(ctx):
    rng = ctx.rng
    uv = gen.make_uvdata(rng, pols=gen.make_pols(rng, kind=gen.pick(rng, ["lin", "circ"])))
    suv = canon.snap(uv)
    t = uv.telescope
    o = rng.permutation(t.Nants)
    for a in ("antenna_numbers", "antenna_names", "antenna_positions", "antenna_diameters"):
        if getattr(t, a) is not None:
            setattr(t, a, getattr(t, a)[o])
    suv = canon.snap(uv)
    recs = {int(n): (str(t.antenna_names[i]), tuple(t.antenna_positions[i]), None if t.antenna_diameters is None else float(t.antenna_diameters[i])) for i, n in enumerate(t.antenna_numbers)}
    inu = sorted(set(uv.ant_1_array.tolist()) | set(uv.ant_2_array.tolist()))
    kw = dict(cal_style="redundant", gain_convention="divide")
    sub = gen.pick(rng, ["all", "numbers", "names", "ants"])
    tel_ants, ants = list(recs), inu
    if sub in ("numbers", "names"):
        keep = [int(x) for x in rng.permutation(list(recs))[: int(rng.integers(1, len(recs) + 1))]]
        if not set(keep) & set(inu):
            keep.append(inu[0])
        tel_ants = keep
        ants = [a for a in inu if a in keep]
        if sub == "numbers":
            kw["antenna_numbers"] = keep
        else:
            kw["antenna_names"] = [recs[k][0] for k in keep]
        ctx.ev("from_uv_subset_" + sub)
    elif sub == "ants":
        ants = [int(x) for x in rng.permutation(inu)[: int(rng.integers(1, len(inu) + 1))]]
        kw["ant_array"] = gen.pick(rng, [ants, np.array(ants)])
        ctx.ev("from_uv_ants")
    wide = rng.integers(3) == 0
    times = np.array(sorted(set(uv.time_array.tolist())))
    if wide:
        kw["wide_band"] = True
        kw["cal_type"] = gen.pick(rng, ["gain", "delay"])
        ctx.ev("from_uv_wide")
    if rng.integers(2):
        kw["integration_time"], kw["time_array"] = 4.0, times.copy()
    p = uv.polarization_array
    if np.all(p < -4):
        jones = [-5, -6] if not (uv.Npols == 1 and p[0] > -7) else p.tolist()
    else:
        jones = [-1, -2] if not (uv.Npols == 1 and p[0] > -3) else p.tolist()
    nf = uv.Nspws if wide else uv.Nfreqs
    val = None
    if rng.integers(2):
        val = gen.unique_complex(rng, (len(ants), nf, len(times), len(jones)))
        nm = "gain_array"
        if kw.get("cal_type") == "delay":
            nm, val = "delay_array", val.real
        kw["data"] = {nm: val.copy()}
    ctx.case(sub, wide, len(times), tel_ants, ants, val is not None)
    c = q(new_uvcal_from_uvdata, uv, **kw)
    what = f"new_uvcal_from_uvdata({sub}, wide: {wide})"
    d = canon.diff(suv, uv, exact=True)
    ctx.check(not d, lambda: f"{what} changed its UVData: {d[:2]}")
    pr = cc.counts(c)
    ctx.check(not pr, f"{what}: {pr}")
    got = {int(n): (str(c.telescope.antenna_names[i]), tuple(c.telescope.antenna_positions[i]), None if c.telescope.antenna_diameters is None else float(c.telescope.antenna_diameters[i])) for i, n in enumerate(c.telescope.antenna_numbers)}
    ctx.check(got == {k: recs[k] for k in tel_ants}, lambda: f"{what}: antenna metadata {[(k, got.get(k), recs[k]) for k in tel_ants if got.get(k) != recs[k]][:2]}", mech="from-uv-antennas")
    ctx.check(sorted(c.ant_array.tolist()) == sorted(ants), f"{what}: antennas {c.ant_array}")
    if val is not None:
        g = c.delay_array if c.cal_type == "delay" else c.gain_array
        for i, a in enumerate(ants):
            ctx.check(np.array_equal(g[c.ant_array.tolist().index(a)], val[i]), f"{what}: solutions given for antenna {a} are stored for another one", mech="from-uv-order")
    ctx.check(np.array_equal(c.time_array, times), f"{what}: times")
    ctx.check(np.max(np.abs(np.angle(np.exp(1j * (c.lst_array - _lst(times, t.location)))))) < 1e-6, f"{what}: LSTs")
    ctx.check(c.jones_array.tolist() == jones, lambda: f"{what}: jones {c.jones_array} for pols {p}")
    if wide:
        for s, r in zip(c.spw_array, c.freq_range):
            fs = uv.freq_array[uv.flex_spw_id_array == s]
            ctx.check(tuple(r) == (fs.min(), fs.max()), f"{what}: range of window {s}")
    else:
        ctx.check(np.array_equal(c.freq_array, uv.freq_array) and np.array_equal(c.channel_width, uv.channel_width) and np.array_equal(c.flex_spw_id_array, uv.flex_spw_id_array), f"{what}: frequencies")
    ctx.ev("from_uv")


def beam_new(ctx):
    rng = ctx.rng
    xo = gen.pick(rng, ["east", "north"])
    ef = bool(rng.integers(2))
    hp = bool(rng.integers(2))
    f = np.sort(rng.uniform(1e8, 2e8, int(rng.integers(1, 4))))
    kw = dict(telescope_name="T", data_normalization=gen.pick(rng, ["physical", "solid_angle"]), freq_array=f.copy(), feed_name="f", feed_version="1", model_name="m", model_version="2", x_orientation=gen.pick(rng, [xo, xo[0], xo.upper()]))
    if ef:
        feeds = gen.pick(rng, [["x", "y"], ["y", "x"], ["x"], ["e", "n"], ["l", "r"]])
        kw["feed_array"] = np.array(feeds)
        npol = len(feeds)
        ctx.ev("beam_efield")
    else:
        pm = gen.pick(rng, ["int", "str", "orient"])
        if pm == "int":
            pols = gen.make_pols(rng, kind="lin")
            kw["polarization_array"] = pols.copy()
        else:
            tab = {k: PN[k] for k in ("xx", "yy", "xy", "yx")} if pm == "str" else EN[xo]
            ks = [list(tab)[i] for i in rng.permutation(4)[: int(rng.integers(1, 5))]]
            kw["polarization_array"] = gen.pick(rng, [ks, np.array(ks)])
            pols = np.array([tab[k] for k in ks])
            ctx.ev("beam_strpol")
        npol = len(pols)
        ctx.ev("beam_power")
    pcs = "healpix"
    if hp:
        ns = int(gen.pick(rng, [1, 2, 4]))
        kw["nside"] = ns
        pix = np.arange(12 * ns**2)
        if rng.integers(2):
            pix = np.sort(rng.choice(12 * ns**2, int(rng.integers(1, 12)), replace=False))
            kw["healpix_pixel_array"] = pix.copy()
        order = gen.pick(rng, [None, "ring", "nested"])
        if order:
            kw["ordering"] = order
        pshape = (len(pix),)
        ctx.ev("beam_healpix")
    else:
        pcs = gen.pick(rng, [None, "az_za", "orthoslant_zenith"])
        if pcs:
            kw["pixel_coordinate_system"] = pcs
            ctx.ev("beam_pcs")
        pcs = pcs or "az_za"
        a1 = np.linspace(0, 2 * np.pi, int(rng.integers(3, 8)), endpoint=False)
        a2 = np.linspace(0, np.pi / 2, int(rng.integers(3, 6)))
        if pcs == "orthoslant_zenith":
            a1 = np.linspace(-0.5, 0.5, len(a1))
            a2 = np.linspace(-0.5, 0.5, len(a2))
        kw.update(axis1_array=a1.copy(), axis2_array=a2.copy())
        pshape = (len(a2), len(a1))
        ctx.ev("beam_axes")
    shape = ((2 if ef else 1), npol, len(f)) + pshape
    val = None
    cross = not ef and any(p in (-7, -8) for p in pols)
    if rng.integers(3):
        val = gen.unique_complex(rng, shape)
        if not ef and not cross:
            val = np.abs(val)
        elif not ef:
            for i, p in enumerate(pols):
                if p in (-5, -6):
                    val[:, i] = np.abs(val[:, i])
        kw["data_array"] = val.copy()
    bp = None
    if rng.integers(2):
        bp = rng.random(len(f))
        kw["bandpass_array"] = bp.copy()
    ctx.case(ef, hp, pcs, shape, val is not None, kw.get("ordering"), str(kw.get("polarization_array")))
    b = q(new_uvbeam, history="mine. ", **kw)
    what = f"UVBeam.new({'efield' if ef else 'power'}, {pcs})"
    ctx.check(b.beam_type == ("efield" if ef else "power") and b.pixel_coordinate_system == pcs and b.x_orientation == xo, f"{what}: type")
    ctx.check(np.array_equal(b.freq_array, f) and b.Nfreqs == len(f), f"{what}: frequencies")
    if ef:
        ctx.check(b.feed_array.tolist() == feeds and b.Nfeeds == npol, f"{what}: feeds")
    else:
        ctx.check(np.array_equal(b.polarization_array, pols) and b.Npols == npol, lambda: f"{what}: pols {b.polarization_array} for {kw['polarization_array']} (x is {xo})", mech="pol-strings")
    if hp:
        ctx.check(np.array_equal(b.pixel_array, pix) and b.nside == ns and b.ordering == (kw.get("ordering") or "ring") and b.Npixels == len(pix), f"{what}: pixels")
    else:
        ctx.check(np.array_equal(b.axis1_array, a1) and np.array_equal(b.axis2_array, a2), f"{what}: axes")
    ctx.check(b.data_array.shape == shape and (np.array_equal(b.data_array, val) if val is not None else not np.any(b.data_array)), f"{what}: data")
    ctx.check(np.array_equal(b.bandpass_array, bp if bp is not None else np.ones(len(f))) and b.data_normalization == kw["data_normalization"] and b.history.startswith("mine. "), f"{what}: bandpass")
    if ef:
        want = np.zeros((2, 2) + pshape)
        want[0, 0] = want[1, 1] = 1
        ctx.check(np.array_equal(b.basis_vector_array, want), f"{what}: basis vectors")
    k2 = dict(kw)
    bad = gen.pick(rng, ["shape", "both", "neither", "bp", "grid", "feeds"])
    if bad == "shape":
        k2["data_array"] = np.zeros(shape[:-1] + (shape[-1] + 1,))
    elif bad == "both":
        k2.update(nside=2, axis1_array=np.arange(4.0), axis2_array=np.arange(4.0))
    elif bad == "neither":
        for k in ("nside", "axis1_array", "axis2_array", "healpix_pixel_array"):
            k2.pop(k, None)
    elif bad == "bp":
        k2["bandpass_array"] = np.ones(len(f) + 1)
    elif bad == "grid":
        if hp:
            k2["basis_vector_array"] = np.ones((2, 2, 1 + pshape[0]))
        else:
            k2["pixel_coordinate_system"] = "mercator"
    else:
        k2["feed_array"] = np.array(["x"])
        k2["polarization_array"] = np.array([-5])
    refused(ctx, new_uvbeam, what=f"UVBeam.new with bad {bad}", **k2)
    ctx.ev("beam_refused")


def phase_centers(ctx):
    """rename, split and merge change only which catalog entry records belong to"""
    rng = ctx.rng
    uv = gen.make_uvdata(rng, nphase=int(rng.integers(1, 4)), ntimes=int(rng.integers(2, 5)))
    sig = []
    meta = ("cat_type", "cat_lon", "cat_lat", "cat_frame", "cat_epoch")

    def val(cid):
        e = uv.phase_center_catalog[cid]
        return tuple(None if e.get(k) is None else e[k] for k in meta)

    name = {int(i): e["cat_name"] for i, e in uv.phase_center_catalog.items()}
    of = [int(i) for i in uv.phase_center_id_array]
    vals = {c: val(c) for c in name}
    rest = canon.snap(uv)
    ign = ("phase_center_catalog", "phase_center_id_array", "Nphase")
    for step in range(int(rng.integers(1, 6))):
        op = gen.pick(rng, ["rename", "split", "split", "split_all", "split_none", "merge", "merge_names", "merge_overlap", "refused"])
        ids = list(name)
        cid = int(gen.pick(rng, ids))
        before = canon.snap(uv)
        if op == "rename":
            nn = gen.pick(rng, ["new", "other", name[ids[0]]])
            if rng.integers(2):
                n0 = name[cid]
                q(uv.rename_phase_center, n0, nn)
                for i in ids:
                    if name[i] == n0:
                        name[i] = nn
            elif rng.integers(2):
                q(uv.rename_phase_center, cid, nn)
                name[cid] = nn
            else:
                q(uv.rename_phase_center, ids[:2], nn)
                for i in ids[:2]:
                    name[i] = nn
        elif op in ("split", "split_all", "split_none"):
            mine = [k for k in range(uv.Nblts) if of[k] == cid]
            if op == "split" and len(mine) < 2:
                continue
            if op == "split":
                pk = sorted(int(x) for x in rng.choice(mine, int(rng.integers(1, len(mine))), replace=False))
            elif op == "split_all":
                if not mine:
                    continue
                pk = mine
            else:
                pk = []
            others = [k for k in range(uv.Nblts) if of[k] != cid]
            kw = {}
            sel = list(pk)
            if others and rng.integers(2):
                kw["downselect"] = True
                sel = pk + [others[0]]
            if op == "split_none" and not sel:
                continue
            form = gen.pick(rng, ["bool", "int", "neg", "list"])
            if form == "bool":
                m = np.zeros(uv.Nblts, bool)
                m[sel] = True
            elif form == "int":
                m = np.array(sel, dtype=int)
            elif form == "neg":
                m = np.array(sel, dtype=int) - uv.Nblts
            else:
                m = [int(x) for x in sel]
            if rng.integers(2):
                kw["new_name"] = "part"
            nid = None
            if rng.integers(2):
                nid = int(rng.integers(60, 90))
                if nid in name:
                    continue
                kw["new_id"] = nid
            who = cid
            if rng.integers(2) and list(name.values()).count(name[cid]) == 1:
                who = name[cid]
            q(uv.split_phase_center, who, select_mask=m, **kw)
            if op == "split_none":
                d = canon.diff(before, uv, exact=True)
                ctx.check(not d, lambda: f"split of nothing changed {d[:2]}")
            else:
                newids = set(int(x) for x in uv.phase_center_catalog) - set(ids)
                ctx.check(len(newids) == 1 and (nid is None or newids == {nid}), f"split_phase_center({op}, {kw}) of {cid} in {ids} made entries {newids}: {list(uv.phase_center_catalog)}, {mine}, {pk}, {m}, {uv.phase_center_id_array}")
                n2 = newids.pop()
                for k in pk:
                    of[k] = n2
                name[n2] = kw.get("new_name", name[cid])
                vals[n2] = vals[cid]
                if op == "split_all":
                    name.pop(cid)
                    vals.pop(cid)
        elif op.startswith("merge"):
            if len(ids) < 2:
                continue
            gr = [int(x) for x in rng.permutation(ids)[: int(rng.integers(2, len(ids) + 1))]]
            arg = list(gr)
            if op != "merge":
                gr2 = []
                arg = [name[gr[0]]] + (gr[1:] if op == "merge_names" else gr)
                for a in arg:
                    for i in ([i for i in ids if name[i] == a] if isinstance(a, str) else [a]):
                        if i not in gr2:
                            gr2.append(i)
                gr = gr2
            if len(gr) < 2:
                continue
            same = all(vals[i] == vals[gr[0]] for i in gr)
            samen = all(name[i] == name[gr[0]] for i in gr)
            kw = {}
            if rng.integers(2):
                kw["ignore_name"] = True
            if rng.integers(2):
                kw["force_merge"] = True
            ok = kw.get("force_merge") or (same and (samen or kw.get("ignore_name")))
            if not ok:
                refused(ctx, uv.merge_phase_centers, arg, what=f"merge of different phase centers {[(name[i], vals[i]) for i in gr]}", **kw)
                d = canon.diff(before, uv, exact=True)
                ctx.check(not d, lambda: f"refused merge changed {d[:2]}")
                ctx.ev("pc_refused")
                continue
            q(uv.merge_phase_centers, arg, **kw)
            for k in range(len(of)):
                if of[k] in gr:
                    of[k] = gr[0]
            for i in gr[1:]:
                name.pop(i)
                vals.pop(i)
        else:
            bad = gen.pick(rng, ["id", "name", "foreign", "newid", "mergeid"])
            others = [k for k in range(uv.Nblts) if of[k] != cid]
            if bad == "id":
                refused(ctx, uv.rename_phase_center, 9999, "x", what="rename of an unknown id")
            elif bad == "name":
                refused(ctx, uv.split_phase_center, "nobody", select_mask=[0], what="split of an unknown name")
            elif bad == "foreign" and others:
                refused(ctx, uv.split_phase_center, cid, select_mask=np.array(others[:1]), what="split of records of another phase center")
            elif bad == "newid":
                refused(ctx, uv.split_phase_center, cid, select_mask=np.array([0]), new_id=cid, what="split to an id in use")
            else:
                refused(ctx, uv.merge_phase_centers, [cid, 9999], what="merge with an unknown id")
            d = canon.diff(before, uv, exact=True)
            ctx.check(not d, lambda: f"refused {bad} changed {d[:2]}")
        ctx.ev("pc_" + op)
        sig.append(op)
        what = " then ".join(sig)
        ctx.check(set(int(i) for i in uv.phase_center_catalog) == set(name) and uv.Nphase == len(name), lambda: f"{what}: catalog has {list(uv.phase_center_catalog)}, expected {list(name)}", mech="merge-overlap" if "merge_overlap" in sig else None)
        ctx.check([int(i) for i in uv.phase_center_id_array] == of, f"{what}: records moved to other phase centers")
        for i in name:
            ctx.check(uv.phase_center_catalog[i]["cat_name"] == name[i] and val(i) == vals[i], lambda: f"{what}: entry {i} is {uv.phase_center_catalog[i]}")
        d = canon.diff(rest, uv, exact=True, ignore=ign)
        ctx.check(not d, lambda: f"{what} changed {d[:2]}")
    ctx.case(sig, len(name), of[:4], float(uv.time_array[0]))


SCENARIOS = [
    Scenario("uv_new", uv_new, 220, 2400),
    Scenario("cal_new", cal_new, 160, 1600),
    Scenario("from_uv", from_uv, 120, 1200),
    Scenario("beam_new", beam_new, 200, 2000),
    Scenario("phase_centers", phase_centers, 200, 2000),
]
