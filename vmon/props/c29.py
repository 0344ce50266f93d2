"""C29 Applying calibration multiplies every visibility by the right gains."""
import copy

import numpy as np

from pyuvdata import UVCal, UVData, utils as uvu
from vmon import canon, gen
from vmon.core import Scenario, Skip
from vmon.props.c28 import _take

RULE = (
    "random visibility objects and calibration objects built for them with different antenna numbering, antenna order, time order, "
    "channel order, extra or missing antennas/times/frequencies, delays, time ranges, both conventions, apply and undo; every "
    "visibility and flag compared with our own per-sample product; non-trivial = distinct (objects, options)"
)
REQUIRED = ["applied", "undo", "multiply", "divide", "flip", "noprop", "delay", "delay_plus", "one_time", "one_time_nocheck", "ranges", "times_shuffled", "freqs_reversed",
            "cal_superset", "missing_ant_flagged", "missing_ant_refused", "missing_time_refused", "missing_freq_refused", "missing_jones_refused", "restored",
            "ragged", "convention_fix", "renumbered_ants", "multi_spw", "recalibrate_refused", "zero_gain", "range_gap_refused", "shared_freq"]
FEED = {-5: (0, 0), -6: (1, 1), -7: (0, 1), -8: (1, 0), -1: (0, 0), -2: (1, 1), -3: (0, 1), -4: (1, 0)}


def _pair(ctx):
    """a visibility object and a calibration object for it"""
    rng = ctx.rng
    lin = bool(rng.integers(3))
    pols = ([-5, -6, -7, -8] if lin else [-1, -2, -3, -4])[: int(rng.integers(1, 5))]
    pols = [int(x) for x in rng.permutation(pols)]
    tel = gen.make_telescope(rng, nants=int(rng.integers(3, 6)))
    tel.x_orientation = tel.x_orientation or "east"
    ragged = bool(rng.integers(2))
    uv = gen.make_uvdata(rng, tel=tel, pols=np.array(pols), ntimes=int(rng.integers(1, 5)), nbl=int(rng.integers(2, 9)), uniform_time=True,
                         layout="ragged" if ragged else None)
    uv.vis_units = "uncalib"
    uv.pol_convention = None
    if uv.Nspws > 1 and rng.integers(3) == 0:  # windows with frequencies in common
        a, b = [np.nonzero(uv.flex_spw_id_array == s)[0] for s in uv.spw_array[:2]]
        n = min(len(a), len(b))
        uv.freq_array[b[:n]] = uv.freq_array[a[:n]]
        uv.channel_width[b[:n]] = uv.channel_width[a[:n]]
    if ragged and uv.Nblts != uv.Nbls * uv.Ntimes:
        ctx.ev("ragged")
    ctel = copy.deepcopy(tel)
    o = rng.permutation(tel.Nants)
    ctel.antenna_names = np.array(tel.antenna_names)[o]
    ctel.antenna_positions = tel.antenna_positions[o]
    ctel.antenna_numbers = tel.antenna_numbers[o]
    if ctel.antenna_diameters is not None:
        ctel.antenna_diameters = tel.antenna_diameters[o]
    if rng.integers(2):
        ctel.antenna_numbers = rng.permutation(50)[: tel.Nants]
        ctx.ev("renumbered_ants")
    used = set(uv.ant_1_array.tolist()) | set(uv.ant_2_array.tolist())
    name = dict(zip(tel.antenna_numbers.tolist(), [str(s) for s in tel.antenna_names]))
    num = dict(zip([str(s) for s in ctel.antenna_names], ctel.antenna_numbers.tolist()))
    ants = [num[name[a]] for a in sorted(used)]
    ants = [int(x) for x in rng.permutation(ants)]
    return uv, ctel, ants, name, num, lin


def _cal(ctx, uv, ctel, ants, lin, kind, times=None, ranges=None, freqs=None, widths=None, spws=None, jones=None):
    rng = ctx.rng
    if jones is None:
        jones = [-5, -6] if lin else [-1, -2]
        if rng.integers(2):
            jones = jones[::-1]
    jones = np.asarray(jones)
    kw = {}
    if ranges is not None:
        kw["time_range"] = ranges
        nt = len(ranges)
    else:
        kw["time_array"] = times
        nt = len(times)
    kw["integration_time"] = np.full(nt, 5.0)
    if kind == "delay":
        lo, hi = uv.freq_array.min() - 1e5, uv.freq_array.max() + 1e5
        kw["freq_range"] = np.array([[lo, hi]])
        nf = 1
    else:
        kw.update(freq_array=freqs, channel_width=widths, flex_spw_id_array=spws)
        nf = len(freqs)
    sh = (len(ants), nf, nt, len(jones))
    data = {"flag_array": rng.random(sh) < gen.pick(rng, [0, 0.1, 0.4])}
    if kind == "delay":
        data["delay_array"] = rng.uniform(-1e-7, 1e-7, sh)
    else:
        data["gain_array"] = rng.uniform(0.3, 3, sh) * np.exp(2j * np.pi * rng.random(sh))
        if rng.integers(6) == 0:
            data["gain_array"][rng.random(sh) < 0.1] = 0
            ctx.ev("zero_gain")
    c = UVCal.new(cal_style="redundant", cal_type=kind, gain_convention=gen.pick(rng, ["divide", "multiply"]), jones_array=jones, telescope=ctel,
                  ant_array=np.array(ants), data=data, history="cal", **kw)
    if rng.integers(2):
        c.gain_scale = "Jy"
        c.pol_convention = gen.pick(rng, ["sum", "avg", None])
    return c


def _expected(uv, c, name, num, *, flip, prop, undo, conv, tind, find):
    """our own application; gains of flagged or missing solutions per the documentation"""
    data = np.array(uv.data_array, copy=True)
    flags = np.array(uv.flag_array, copy=True)
    pos = {int(a): i for i, a in enumerate(c.ant_array)}
    jpos = {int(j): i for i, j in enumerate(c.jones_array)}
    base = -5 if -5 in jpos or -6 in jpos else -1
    for i in range(uv.Nblts):
        a1, a2 = pos.get(num.get(name[int(uv.ant_1_array[i])])), pos.get(num.get(name[int(uv.ant_2_array[i])]))
        for p, pol in enumerate(uv.polarization_array):
            if a1 is None or a2 is None:
                flags[i, :, p] = True
                continue
            f1, f2 = FEED[int(pol)]
            j1, j2 = jpos[base - f1], jpos[base - f2]
            for f in range(uv.Nfreqs):
                t = tind[i]
                if c.cal_type == "delay":
                    s = 1 if conv == "plus" else -1
                    g1 = np.exp(s * 2j * np.pi * c.delay_array[a1, 0, t, j1] * uv.freq_array[f])
                    g2 = np.exp(s * 2j * np.pi * c.delay_array[a2, 0, t, j2] * uv.freq_array[f])
                    fl = c.flag_array[a1, 0, t, j1] or c.flag_array[a2, 0, t, j2]
                else:
                    g1, g2 = c.gain_array[a1, find[f], t, j1], c.gain_array[a2, find[f], t, j2]
                    fl = c.flag_array[a1, find[f], t, j1] or c.flag_array[a2, find[f], t, j2]
                g = np.conj(g1) * g2 if flip else g1 * np.conj(g2)
                if prop and (fl or abs(g) < 1e-8):
                    flags[i, f, p] = True
                    continue
                mult = (c.gain_convention == "multiply") != undo
                data[i, f, p] = data[i, f, p] * g if mult else (data[i, f, p] / g if g != 0 else np.nan)
    return data, flags


def apply(ctx):
    rng = ctx.rng
    uv, ctel, ants, name, num, lin = _pair(ctx)
    kind = gen.pick(rng, ["gain", "gain", "gain", "delay"])
    ut = np.unique(uv.time_array)
    tk = gen.pick(rng, ["all", "shuffled", "superset", "one", "ranges"])
    ranges = None
    times = None
    dt = 10.0 / 86400
    time_check = True
    if tk == "one" and len(ut) > 1:
        times = np.array([ut[0]])
        time_check = False
        ctx.ev("one_time_nocheck")
    elif tk == "ranges":
        g = np.sort(rng.choice(len(ut) + 1, int(rng.integers(1, len(ut) + 1)), replace=False))
        g = np.unique(np.concatenate([[0], g, [len(ut)]]))
        ranges = np.array([[ut[a] - 1e-6, ut[b - 1] + 1e-6] for a, b in zip(g[:-1], g[1:])])
        if np.any(ranges[1:, 0] <= ranges[:-1, 1]):
            raise Skip("ranges touch")
        ranges = ranges[rng.permutation(len(ranges))]
        ctx.ev("ranges")
    else:
        times = ut.copy()
        if tk == "superset":
            times = np.concatenate([times, ut.max() + dt * np.arange(1, 3), [ut.min() - dt]])
            ctx.ev("cal_superset")
        if tk != "all":
            times = rng.permutation(times)
            ctx.ev("times_shuffled")
        if len(times) == 1:
            ctx.ev("one_time")
    f, w, s = uv.freq_array.copy(), np.asarray(uv.channel_width).copy(), np.asarray(uv.flex_spw_id_array).copy()
    fk = gen.pick(rng, ["same", "reversed", "superset", "other_ids"])
    if uv.Nspws > 1:
        ctx.ev("multi_spw")
    shared = len(np.unique(np.round(f, 1))) < len(f)
    if fk == "reversed":
        f, w, s = f[::-1], w[::-1], s[::-1]
        ctx.ev("freqs_reversed")
    elif fk == "superset":
        n = int(rng.integers(1, 4))
        f = np.concatenate([f, f.max() + 1e6 * np.arange(1, n + 1)])
        w = np.concatenate([w, np.full(n, w[-1])])
        s = np.concatenate([s, np.full(n, s[-1])]) if rng.integers(2) else np.concatenate([s, np.full(n, s.max() + 1)])
        ctx.ev("cal_superset")
    elif fk == "other_ids" and not shared:
        s = np.array([{v: i + 100 for i, v in enumerate(dict.fromkeys(s.tolist()))}[x] for x in s.tolist()])
    if shared:
        ctx.ev("shared_freq")
    c = _cal(ctx, uv, ctel, ants, lin, kind, times=times, ranges=ranges, freqs=f, widths=w, spws=s)
    # where is each channel and time of the data
    find = []
    if kind == "gain":
        for fr, sp in zip(uv.freq_array, uv.flex_spw_id_array):
            k = [i for i in range(len(f)) if abs(f[i] - fr) < 0.5 and s[i] == sp] or [i for i in range(len(f)) if abs(f[i] - fr) < 0.5]
            find.append(k[0])
    if ranges is not None:
        tind = [int(np.nonzero((ranges[:, 0] <= t) & (t <= ranges[:, 1]))[0][0]) for t in uv.time_array]
    elif len(times) == 1:
        tind = [0] * uv.Nblts
    else:
        tind = [int(np.argmin(np.abs(times - t))) for t in uv.time_array]
    # options
    opt = dict(flip_gain_conj=bool(rng.integers(4) == 0), prop_flags=bool(rng.integers(4)), delay_convention=gen.pick(rng, ["minus", "plus"]), time_check=time_check)
    undo = bool(rng.integers(3) == 0)
    missing = False
    if rng.integers(5) == 0 and len(ants) > 1:
        drop = int(rng.integers(1, len(ants)))
        c = _take(c, ai=np.sort(rng.permutation(len(ants))[drop:]))
        b = canon.snap(uv)
        ctx.raises(ValueError, lambda: uvu.uvcalibrate(uv, c, **opt), "calibrating data of antennas without solutions")
        ctx.check(not canon.diff(b, uv, exact=True), "a refused calibration changed the data")
        ctx.ev("missing_ant_refused")
        opt["ant_check"] = False
        missing = True
        ctx.ev("missing_ant_flagged")
    factor = 1.0
    if c.gain_scale is not None:
        uvd = gen.pick(rng, ["sum", "avg", None])
        if undo:
            uv.vis_units = c.gain_scale
            uv.pol_convention = uvd
        elif uvd is not None:
            opt["uvd_pol_convention"] = uvd
        cc_, ud = c.pol_convention, uvd
        if cc_ is None:
            cc_ = ud
        if ud is None:
            ud = cc_
        if cc_ != ud:
            # avg: XX ~ I, sum: XX ~ I/2
            up = {"avg": 1.0, "sum": 0.5}
            factor = up[ud] / up[cc_]
            if undo:
                factor = 1 / factor
            ctx.ev("convention_fix")
    ctx.case("apply", kind, tk, fk, undo, sorted(opt.items()), uv.Nblts, uv.Nfreqs, uv.polarization_array, c.gain_convention, missing)
    orig = copy.deepcopy(uv)
    csnap = canon.snap(c)
    inplace = bool(rng.integers(2))
    r = uvu.uvcalibrate(uv, c, inplace=inplace, undo=undo, **opt)
    if inplace:
        r = uv
    else:
        d = canon.diff(orig, uv, exact=True)
        ctx.check(not d, lambda: f"uvcalibrate(inplace=False) changed the data object: {d[:2]}")
    d = canon.diff(csnap, c, exact=True)
    ctx.check(not d, lambda: f"uvcalibrate changed the calibration object: {d[:2]}")
    ed, ef = _expected(orig, c, name, num, flip=opt["flip_gain_conj"], prop=opt["prop_flags"], undo=undo, conv=opt["delay_convention"], tind=tind, find=find)
    ed = ed * factor
    what = f"uvcalibrate({kind}, cal times {tk}, cal freqs {fk}, undo={undo}, {opt})"
    bad = np.argwhere(r.flag_array != ef)
    ctx.check(len(bad) == 0, lambda: f"{what}: flag {bad[0]} is {r.flag_array[tuple(bad[0])]}, expected {ef[tuple(bad[0])]} ({len(bad)} wrong)")
    ok = np.isfinite(ed)
    err = np.abs(r.data_array - ed) > 1e-5 * np.abs(ed) + 1e-12
    bad = np.argwhere(err & ok)
    ctx.check(len(bad) == 0, lambda: f"{what}: visibility {bad[0]} is {r.data_array[tuple(bad[0])]}, expected {ed[tuple(bad[0])]} ({len(bad)} wrong)")
    ctx.check(np.array_equal(r.nsample_array, orig.nsample_array), f"{what} changed nsamples")
    same = canon.diff(orig, r, ignore={"data_array", "flag_array", "history", "vis_units", "pol_convention"}, exact=True)
    ctx.check(not same, lambda: f"{what} changed {same[:2]}")
    ctx.check(r.history.startswith(orig.history), "history lost")
    if undo:
        ctx.check(r.vis_units == "uncalib", f"units after undoing: {r.vis_units}")
    elif c.gain_scale is not None:
        ctx.check(r.vis_units == "Jy", f"units after calibrating: {r.vis_units}")
        ctx.check(r.pol_convention == ud, f"pol_convention {r.pol_convention}, expected {ud}")
    for e, v in (("applied", not undo), ("undo", undo), (c.gain_convention, True), ("flip", opt["flip_gain_conj"]), ("noprop", not opt["prop_flags"]), ("delay", kind == "delay"),
                 ("delay_plus", kind == "delay" and opt["delay_convention"] == "plus")):
        if v:
            ctx.ev(e)
    # applying and undoing restores
    zero = kind != "delay" and c.gain_array is not None and (c.gain_array == 0).any()
    if not undo and ok.all() and (opt["prop_flags"] or not zero):
        o2 = {k: v for k, v in opt.items() if k != "uvd_pol_convention"}
        z = uvu.uvcalibrate(r, c, inplace=False, undo=True, **o2)
        err = np.abs(z.data_array - orig.data_array).max() / np.abs(orig.data_array).max()
        ctx.check(err < 1e-5, f"undoing the calibration does not restore the data: {err}")
        ctx.ev("restored")
        if r.pol_convention is not None:
            b = canon.snap(r)
            ctx.raises(ValueError, lambda: uvu.uvcalibrate(r, c, **opt), "calibrating data twice")
            ctx.check(not canon.diff(b, r, exact=True), "a refused calibration changed the data")
            ctx.ev("recalibrate_refused")


def refuse(ctx):
    rng = ctx.rng
    uv, ctel, ants, name, num, lin = _pair(ctx)
    ut = np.unique(uv.time_array)
    f, w, s = uv.freq_array.copy(), np.asarray(uv.channel_width).copy(), np.asarray(uv.flex_spw_id_array).copy()
    what = gen.pick(rng, ["time", "freq", "jones", "ant", "gap"])
    kw = dict(times=ut, freqs=f, widths=w, spws=s)
    o = {}
    if what == "time":
        k = int(rng.integers(len(ut)))
        t = ut.copy()
        t[k] += 3.0 / 86400
        kw["times"] = t if len(t) > 1 else t
    elif what == "freq":
        k = int(rng.integers(len(f)))
        if rng.integers(2) and len(f) > 1:
            m = np.arange(len(f)) != k
            if np.any(np.abs(f[m] - f[k]) < 1):
                raise Skip("frequency also in another window")
            kw.update(freqs=f[m], widths=w[m], spws=s[m])
        else:
            if np.sum(np.abs(f - f[k]) < 1) > 1:
                raise Skip("frequency also in another window")
            g = f.copy()
            g[k] += 2e3
            kw["freqs"] = g
    elif what == "jones":
        kw["jones"] = [-5] if lin else [-1]
        need = {x for p in uv.polarization_array for x in FEED[int(p)]}
        if need == {0}:
            kw["jones"] = [-6] if lin else [-2]
    elif what == "gap":
        if len(ut) < 3:
            raise Skip("few times")
        kw.pop("times")
        kw["ranges"] = np.array([[ut[0] - 1e-6, ut[0] + 1e-6], [ut[-1] - 1e-6, ut[-1] + 1e-6]])
    else:
        if len(ants) < 2:
            raise Skip("one antenna")
        ants = ants[:-1]
    c = _cal(ctx, uv, ctel, ants, lin, "gain", **kw)
    b, cb = canon.snap(uv), canon.snap(c)
    ctx.case("refuse", what, uv.Nblts, uv.Nfreqs, len(ut))
    ctx.raises(ValueError, lambda: uvu.uvcalibrate(uv, c, **o), f"calibrating with a missing {what}")
    d = canon.diff(b, uv, exact=True)
    ctx.check(not d, f"a refused calibration changed the data: {d[:2]}")
    ctx.check(not canon.diff(cb, c, exact=True), "a refused calibration changed the solutions")
    ctx.ev({"time": "missing_time_refused", "freq": "missing_freq_refused", "jones": "missing_jones_refused", "ant": "missing_ant_refused", "gap": "range_gap_refused"}[what])


SCENARIOS = [Scenario("apply", apply, 450, 8000), Scenario("refuse", refuse, 150, 2500)]
