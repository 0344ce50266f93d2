"""C11 Resampling in time conserves data and exposure."""
import numpy as np
from astropy.time import Time

from vmon import canon, gen
from vmon.core import Scenario
from vmon.props import common
from vmon.props.c10 import _model_uvw

RULE = (
    "random objects (regular, gappy and ragged time axes, per-baseline integration times, one or several phase centers of every "
    "type, random flags and weights) are up-, down- or resampled with random options; an own per-baseline binning model computes every "
    "output record from the input records; non-trivial = distinct (object, options)"
)
REQUIRED = ["down_min", "down_n", "up", "resample", "roundtrip", "ragged_kept", "ragged_dropped", "summing", "fully_flagged_window",
            "partly_flagged_window", "kept_as_is", "refused_mixed_centers", "drift_phased", "drift_allowed", "near_target", "scan_numbers",
            "multi_center"]
ASSUMPTIONS = ["phasing itself is decided by C10; here the library's phase_to_time is used to bring drift data to one center before comparing"]
TOL = 1e-3  # documented tolerance on integration_time, s


def _mk(ctx, allow_multi=True, **kw):
    rng = ctx.rng
    uv = gen.make_uvdata(rng, nbl=int(rng.integers(1, 5)), ntimes=int(rng.integers(2, 9)), chans=int(rng.integers(1, 4)), dtype=np.complex128,
                         nphase=1, autos=bool(rng.integers(2)), **kw)
    # phase centers as contiguous pieces of time, so that windows may or may not mix them
    if allow_multi and rng.integers(2) and uv.Nblts > 2:
        kinds = ["sidereal", "driftscan", "unprojected"]
        cut = gen.pick(rng, sorted(set(uv.time_array.tolist())))
        m = uv.time_array >= cut
        if rng.integers(2):
            # by baseline: no window mixes centers
            b = uv.baseline_array[int(rng.integers(uv.Nblts))]
            m = uv.baseline_array == b
        if m.any() and not m.all():
            k = gen.pick(rng, kinds)
            lst0 = float(uv.lst_array[0])
            if k == "sidereal":
                uv.phase(lon=lst0 + 0.2, lat=-0.3, cat_name="other", phase_frame="icrs", select_mask=m)
            elif k == "driftscan":
                uv.phase(lon=float(rng.uniform(0, 6)), lat=1.2, cat_name="other", phase_frame="altaz", cat_type="driftscan", epoch=None, select_mask=m)
            else:
                uv.unproject_phase(select_mask=m, cat_name="other")
    if rng.integers(6) == 0:
        uv.scan_number_array = np.searchsorted(np.unique(uv.time_array), uv.time_array).astype(int) // 4 + 1
        ctx.ev("scan_numbers")
    return uv


class Rec:
    __slots__ = ("bl", "t", "it", "pc", "d", "f", "n", "src")

    def __init__(self, bl, t, it, pc, d, f, n, src):
        self.bl, self.t, self.it, self.pc, self.d, self.f, self.n, self.src = bl, t, it, pc, d, f, n, src


def _records(uv):
    return [Rec((int(a), int(b)), float(t), float(i), int(p), uv.data_array[k].copy(), uv.flag_array[k].copy(), uv.nsample_array[k].astype(float), [k])
            for k, (a, b, t, i, p) in enumerate(zip(uv.ant_1_array, uv.ant_2_array, uv.time_array, uv.integration_time, uv.phase_center_id_array))]


class Mixed(Exception):
    pass


def _avg(ctx, rs, summing):
    if len({r.pc for r in rs}) > 1:
        raise Mixed()
    it = np.array([r.it for r in rs])
    d = np.array([r.d for r in rs])
    f = np.array([r.f for r in rs])
    n = np.array([r.n for r in rs])
    allf = f.all(0)
    use = ~f | allf[None]
    if allf.any():
        ctx.ev("fully_flagged_window")
    if (f.any(0) & ~allf).any():
        ctx.ev("partly_flagged_window")
    w = n * it[:, None, None] * use
    if summing:
        out = (d * use).sum(0)
    else:
        out = (d * w).sum(0) / w.sum(0)
    ns = w.sum(0) / it.sum()
    return Rec(rs[0].bl, float((np.array([r.t - rs[0].t for r in rs]) * it).sum() / it.sum() + rs[0].t), float(it.sum()), rs[0].pc, out, allf, ns,
               [s for r in rs for s in r.src])


def _down(ctx, recs, min_int=None, n=None, ragged=True, summing=False):
    by = {}
    for r in recs:
        by.setdefault(r.bl, []).append(r)
    out = []
    for bl, rs in by.items():
        rs = sorted(rs, key=lambda r: r.t)
        if min_int is not None and not any(r.it < min_int - TOL for r in rs):
            out += rs
            ctx.ev("kept_as_is")
            continue
        cur, tot = [], 0.0
        for r in rs:
            cur.append(r)
            tot += r.it
            full = (tot > min_int - TOL) if min_int is not None else len(cur) >= n
            if full:
                out.append(_avg(ctx, cur, summing))
                cur, tot = [], 0.0
        if cur:
            if ragged:
                out.append(_avg(ctx, cur, summing))
                ctx.ev("ragged_kept")
            else:
                ctx.ev("ragged_dropped")
    return out


def _up(ctx, recs, max_int, summing=False):
    out = []
    for r in recs:
        if r.it <= max_int + TOL:
            out.append(r)
            continue
        x = r.it / max_int
        k = int(round(x)) if abs(x - round(x)) < 1e-5 * x else int(np.ceil(x))
        for j in range(k):
            out.append(Rec(r.bl, r.t + (j - (k - 1) / 2) * r.it / k / 86400, r.it / k, r.pc, r.d / k if summing else r.d, r.f, r.n, r.src))
    return out


def _drift_rows(uv):
    ids = [i for i, e in uv.phase_center_catalog.items() if e["cat_type"] in ("driftscan", "unprojected")]
    return np.isin(uv.phase_center_id_array, ids)


def _entry(e):
    return tuple((k, str(e.get(k))) for k in ("cat_name", "cat_type", "cat_lon", "cat_lat", "cat_frame"))


def _compare(ctx, before, res, want, what, ref=None):
    """want: model records; res: object; ref: time of the common zenith center when drift data was phased."""
    ctx.check(res.Nblts == len(want), f"{what}: {res.Nblts} records, {len(want)} expected")
    obj = res
    if ref is not None:
        obj = res.copy()
        m = _drift_rows(obj)
        if m.any():
            obj.phase_to_time(Time(ref, format="jd"), select_mask=m)
    have = _records(obj)
    key = lambda r: (r.bl, round(r.t * 86400 * 20))  # noqa: E731
    have.sort(key=lambda r: (r.bl, r.t))
    want = sorted(want, key=lambda r: (r.bl, r.t))
    scale = max(float(np.abs(r.d).max()) for r in want) + 1e-9
    for h, w in zip(have, want):
        i = h.src[0]
        ctx.check(h.bl == w.bl, f"{what}: baseline {h.bl}, expected {w.bl}")
        ctx.check(abs(h.t - w.t) * 86400 < 2e-3, f"{what}: baseline {h.bl} time {h.t} expected {w.t}")
        ctx.check(abs(h.it - w.it) < 1e-6 * w.it + 1e-9, f"{what}: baseline {h.bl} at {h.t}: integration time {h.it} expected {w.it}")
        e0 = before.phase_center_catalog[w.pc]
        e1 = res.phase_center_catalog[int(res.phase_center_id_array[i])]
        ctx.check(_entry(e0) == _entry(e1), f"{what}: record of phase center {_entry(e0)} now has {_entry(e1)}")
        ctx.check(np.array_equal(h.f, w.f), f"{what}: flags of {h.bl} at {h.t} wrong")
        ctx.check(np.allclose(h.n, w.n, rtol=1e-5, atol=1e-6), f"{what}: sample counts of {h.bl} at {h.t}: {h.n.ravel()[:3]} expected {w.n.ravel()[:3]}")
        err = np.abs(h.d - w.d).max()
        ctx.check(err < (1e-5 if ref is None else 2e-4) * scale, lambda: f"{what}: visibilities of {h.bl} at {h.t} off by {err}: {h.d.ravel()[:2]} expected {w.d.ravel()[:2]} from records {w.src}")
        if before.scan_number_array is not None:
            ctx.check(res.scan_number_array is not None and res.scan_number_array[i] in before.scan_number_array[w.src],
                      f"{what}: scan number of {h.bl} at {h.t} wrong")
    # geometry of the new records
    for pid in np.unique(res.phase_center_id_array):
        rows = res.phase_center_id_array == pid
        e = res.phase_center_catalog[int(pid)]
        c = {"type": e["cat_type"], "lon": e["cat_lon"], "lat": e["cat_lat"], "frame": e["cat_frame"],
             "epoch": None if e.get("cat_epoch") is None else f"J{e['cat_epoch']}"}
        mod = _model_uvw(res, rows, c)
        b = max(1.0, float(np.abs(mod).max()))
        err = np.abs(mod - res.uvw_array[rows]).max()
        ctx.check(err < 2e-5 * b + 1e-4, f"{what}: uvws of the new records off by {err} m for {c}")
    d = canon.diff(before, res, only=("freq_array", "channel_width", "polarization_array", "spw_array", "flex_spw_id_array", "vis_units", "Nfreqs", "Npols",
                                      "telescope.antenna_positions", "telescope.antenna_names", "telescope.antenna_numbers", "telescope.location",
                                      "extra_keywords"), exact=True)
    ctx.check(not d, lambda: f"{what}: {d[:3]}")
    ctx.check(res.history.startswith(before.history) and len(res.history) > len(before.history), f"{what}: history not kept/extended")
    common.sane(ctx, res, what)


def _common(ctx, uv, opts):
    rng = ctx.rng
    if rng.integers(3) == 0:
        opts["summing_correlator_mode"] = True
        ctx.ev("summing")
    if rng.integers(3) == 0:
        opts["blt_order"] = gen.pick(rng, ["baseline", "ant1", "time"])
        opts["minor_order"] = None if rng.integers(2) else gen.pick(rng, [o for o in ("time", "baseline", "ant1", "ant2")
                                                                       if o != opts["blt_order"] and not (opts["blt_order"] in ("ant1", "baseline") and o == "baseline")
                                                                       and not (opts["blt_order"] == "baseline" and o != "time")])
    drift = _drift_rows(uv)
    ref = None
    if drift.any():
        if rng.integers(2):
            opts["allow_drift"] = True
            ctx.ev("drift_allowed")
        else:
            ctx.ev("drift_phased")
            ref = "phase"
    if uv.Nphase > 1:
        ctx.ev("multi_center")
    return ref


def _source(uv, ref, reorder):
    """records to be averaged; drift data brought to the zenith of the first time when the library does so"""
    if ref is None:
        return _records(uv), None
    c = uv.copy()
    if reorder:
        c.reorder_blts()
    t0 = float(c.time_array[0])
    c = uv.copy()
    c.phase_to_time(Time(t0, format="jd"), select_mask=_drift_rows(uv))
    recs = _records(c)
    for r, p in zip(recs, uv.phase_center_id_array):
        r.pc = int(p)
    return recs, t0


def s_down(ctx):
    rng = ctx.rng
    uv = _mk(ctx)
    if uv.Ntimes == 1:
        return
    opts = {}
    base = float(uv.integration_time.min())
    if rng.integers(2):
        mult = gen.pick(rng, [1.5, 2.0, 2.0, 3.0, 3.7, 4.0, 20.0])
        opts["min_int_time"] = base * mult
        ctx.ev("down_min")
    else:
        opts["n_times_to_avg"] = int(gen.pick(rng, [1, 2, 2, 3, 4, 9]))
        ctx.ev("down_n")
    if rng.integers(2):
        opts["keep_ragged"] = bool(rng.integers(2))
    ref = _common(ctx, uv, opts)
    before = uv.copy()
    recs, t0 = _source(uv, ref, True)
    what = f"downsample_in_time({opts})"
    try:
        want = _down(ctx, recs, opts.get("min_int_time"), opts.get("n_times_to_avg"), opts.get("keep_ragged", True), opts.get("summing_correlator_mode", False))
    except Mixed:
        ctx.raises(ValueError, lambda: uv.downsample_in_time(**opts), what + " with several phase centers in a window")
        a, b = canon.ledger(before), canon.ledger(uv)
        if ref is None:
            d = canon.dictdiff(a, b, exact=True)
            ctx.check(not d, lambda: f"refused {what} changed the data: {d[:3]}")
        ctx.ev("refused_mixed_centers")
        ctx.case("mixed", common.describe_uv(before), opts)
        return
    if not want:
        return
    if len({(r.bl, round(r.t * 86400 * 1000)) for r in want}) < len(want):
        return
    same = opts.get("min_int_time") is not None and not (uv.integration_time < opts["min_int_time"] - TOL).any()
    uv.downsample_in_time(**opts)
    if same:
        d = canon.diff(before, uv, exact=True)
        ctx.check(not d, f"{what} with nothing to do changed the object: {d[:2]}")
        return
    _compare(ctx, before, uv, want, what, t0)
    ctx.case("down", common.describe_uv(before), opts)


def s_up(ctx):
    rng = ctx.rng
    uv = _mk(ctx)
    opts = {}
    base = float(uv.integration_time.max())
    mx = base / gen.pick(rng, [1.0, 1.3, 2.0, 2.0, 3.0, 4.0, 7.5])
    if rng.integers(4) == 0:
        # integration times a hair above the target
        mx = float(uv.integration_time.min()) - 4e-4
        ctx.ev("near_target")
    ref = _common(ctx, uv, opts)
    before = uv.copy()
    recs, t0 = _source(uv, ref, False)
    want = _up(ctx, recs, mx, opts.get("summing_correlator_mode", False))
    what = f"upsample_in_time({mx}, {opts})"
    nothing = not (uv.integration_time > mx + TOL).any()
    uv.upsample_in_time(mx, **opts)
    if nothing:
        d = canon.diff(before, uv, exact=True)
        ctx.check(not d, f"{what} with nothing to do changed the object: {d[:2]}")
        return
    _compare(ctx, before, uv, want, what, t0)
    ctx.ev("up")
    ctx.case("up", common.describe_uv(before), mx, opts)


def s_resample(ctx):
    rng = ctx.rng
    uv = _mk(ctx, allow_multi=False, kinds=["sidereal"])
    if uv.Ntimes == 1:
        return
    opts = {}
    if rng.integers(3) == 0:
        opts[gen.pick(rng, ["only_upsample", "only_downsample"])] = True
    if rng.integers(2):
        opts["keep_ragged"] = bool(rng.integers(2))
    _common(ctx, uv, opts)
    lo, hi = float(uv.integration_time.min()), float(uv.integration_time.max())
    target = float(gen.pick(rng, [lo * 2, hi / 2, hi * 2, (lo * hi) ** 0.5, lo * 3.3]))
    before = uv.copy()
    recs = _records(uv)
    down = int(np.floor(target / lo)) >= 2 and not opts.get("only_upsample")
    up = int(np.floor(hi / target)) >= 2 and not opts.get("only_downsample")
    if down and target > 100 * hi:
        return
    what = f"resample_in_time({target}, {opts})"
    if down:
        recs = _down(ctx, recs, target, None, opts.get("keep_ragged", True), opts.get("summing_correlator_mode", False))
        if not recs:
            return
    if up:
        recs = _up(ctx, recs, target, opts.get("summing_correlator_mode", False))
    if len({(r.bl, round(r.t * 86400 * 1000)) for r in recs}) < len(recs):
        return
    uv.resample_in_time(target, **opts)
    if not (down or up):
        d = canon.diff(before, uv, exact=True)
        ctx.check(not d, f"{what} with nothing to do changed the object: {d[:2]}")
    else:
        _compare(ctx, before, uv, recs, what)
    ctx.ev("resample")
    ctx.case("resample", common.describe_uv(before), target, opts)


def s_roundtrip(ctx):
    rng = ctx.rng
    uv = _mk(ctx, allow_multi=False, layout=gen.pick(rng, ["time", "bl"]), uniform_time=True)
    ts = np.unique(uv.time_array)
    uv.integration_time[:] = float(np.diff(ts).min() * 86400) if ts.size > 1 else float(uv.integration_time.min())
    k = int(gen.pick(rng, [2, 3, 4]))
    before = uv.copy()
    opts = {}
    if _drift_rows(uv).any() and rng.integers(2):
        opts["allow_drift"] = True
    if rng.integers(2):
        opts["summing_correlator_mode"] = True
    uv.upsample_in_time(float(uv.integration_time[0]) / k, **opts)
    ctx.check(uv.Nblts == k * before.Nblts, f"upsampling by {k} gave {uv.Nblts} from {before.Nblts} records")
    uv.downsample_in_time(n_times_to_avg=k, **opts)
    # drift data was phased to slightly different reference times
    tol = 1e-5 if not _drift_rows(before).any() or "allow_drift" in opts else None
    a = {(int(x), int(y), round(t * 86400 * 100)): i for i, (x, y, t) in enumerate(zip(before.ant_1_array, before.ant_2_array, before.time_array))}
    b = {(int(x), int(y), round(t * 86400 * 100)): i for i, (x, y, t) in enumerate(zip(uv.ant_1_array, uv.ant_2_array, uv.time_array))}
    near = {}
    for (x, y, t), i in b.items():
        for dt in (-1, 0, 1):
            if (x, y, t + dt) in a:
                near[a[(x, y, t + dt)]] = i
    ctx.check(len(near) == before.Nblts == uv.Nblts, "up- and downsampling does not restore the records")
    i0 = np.array(sorted(near))
    i1 = np.array([near[i] for i in i0])
    ctx.check(np.array_equal(before.flag_array[i0], uv.flag_array[i1]), "up- and downsampling does not restore the flags")
    ctx.check(np.allclose(before.nsample_array[i0], uv.nsample_array[i1]), "up- and downsampling does not restore the sample counts")
    if tol:
        ctx.check(np.allclose(before.data_array[i0], uv.data_array[i1], rtol=tol), "up- and downsampling does not restore the visibilities")
    ctx.check(np.allclose(before.integration_time[i0], uv.integration_time[i1]), "up- and downsampling does not restore the integration times")
    ctx.ev("roundtrip")
    ctx.case("roundtrip", common.describe_uv(before), k, opts)


SCENARIOS = [Scenario("down", s_down, 450, 8000), Scenario("up", s_up, 250, 5000), Scenario("resample", s_resample, 150, 3000),
             Scenario("roundtrip", s_roundtrip, 100, 2000)]
