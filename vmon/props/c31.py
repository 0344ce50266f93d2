"""C31 Flag conversions and applications are exact."""
import copy

import numpy as np

from pyuvdata import UVFlag, utils
from pyuvdata.uvflag import flags2waterfall
from vmon import canon, gen
from vmon.core import Scenario, Skip
from vmon.props import flagcommon as fc

RULE = (
    "random flag/metric objects of each type are collapsed (mean, absmean, quadmean, or, and; weighted, with infinities), expanded to baselines and antennas, "
    "thresholded, recast as metrics with re-derived weights, or-ed, combined and applied to visibilities whose records, channels or polarizations are in another order; "
    "every resulting flag, metric and weight is recomputed per (baseline/antenna, time, frequency, polarization). non-trivial = distinct (object, operation)"
)
REQUIRED = ["collapse_baseline", "collapse_antenna", "collapse_pol", "collapse_mean", "collapse_absmean", "collapse_quadmean", "collapse_or", "collapse_and", "weights_square", "bool_on_metric_refused",
            "to_baseline_waterfall", "to_baseline_antenna", "metric_target", "unknown_antenna", "force_pol", "pol_mismatch_refused", "freq_mismatch_refused", "to_antenna", "to_flag", "to_metric", "convert_wgts", "or", "combine",
            "apply_baseline", "apply_waterfall", "apply_antenna", "apply_reordered", "apply_pol_order", "apply_freq_order", "apply_one_time", "apply_one_freq", "apply_missing", "apply_unflag", "apply_refused",
            "copy_flags", "flags2waterfall", "shuffled_times"]
METH = ["mean", "absmean", "quadmean", "or", "and"]


def coll(x, w, method, axis):
    if method in ("or", "and"):
        return (np.any if method == "or" else np.all)(x, axis=axis), None, None
    x = np.asarray(x, float)
    y = {"mean": x, "absmean": np.abs(x), "quadmean": x * x}[method]
    w = np.where(np.isinf(x), 0.0, np.broadcast_to(w, x.shape))
    y = np.where(np.isinf(x), 0.0, y)
    W = w.sum(axis=axis)
    out = np.where(W > 1e-10, (w * y).sum(axis=axis) / np.where(W > 1e-10, W, 1.0), np.inf)
    return (np.sqrt(out) if method == "quadmean" else out), W, (w * w).sum(axis=axis)


def _arr(ctx, got, want, what, tol=1e-12):
    got = np.asarray(got)
    ctx.check(got.shape == want.shape, lambda: f"{what}: shape {got.shape}, expected {want.shape}")
    if want.dtype == bool:
        bad = np.argwhere(got != want)
    else:
        with np.errstate(invalid="ignore"):
            bad = np.argwhere(~((got == want) | (np.abs(got - want) <= tol * np.maximum(1.0, np.abs(want)))))
    ctx.check(len(bad) == 0, lambda: f"{what}: at {bad[0]} {got[tuple(bad[0])]}, expected {want[tuple(bad[0])]} ({len(bad)}/{want.size})")


def collapse(ctx):
    rng = ctx.rng
    u = gen.make_uvflag(rng, infs=True)
    if u.type == "waterfall":
        u.weights_square_array = None
    m = gen.pick(rng, METH)
    keep = bool(rng.integers(2))
    wsq = bool(rng.integers(2)) and u.type == "baseline" and m not in ("or", "and") and keep
    ctx.case(fc.describe(u), m, keep, wsq)
    s = copy.deepcopy(u)
    if u.mode == "metric" and m in ("or", "and"):
        if u.type == "waterfall" and (keep or u.Npols == 1):
            raise Skip()
        ctx.raises(ValueError, lambda: u.to_waterfall(method=m, keep_pol=keep), f"{m} of metrics")
        d = canon.diff(s, u, exact=True)
        ctx.check(not d, lambda: f"refused to_waterfall changed the object: {d[:2]}")
        ctx.ev("bool_on_metric_refused")
        return
    x = s.flag_array if s.mode == "flag" else s.metric_array
    w = np.ones(x.shape) if s.mode == "flag" else s.weights_array
    pols = s.polarization_array
    flagged = s.mode == "flag"
    only_pol = bool(rng.integers(4) == 0) and s.Npols > 1
    if only_pol or (not keep and s.Npols > 1):
        y, W, _ = coll(x, w, m, -1)
        x = y[..., None]
        w = np.ones(x.shape) if (W is None or flagged) else W[..., None]
        flagged = flagged and m in ("or", "and")
        pols = np.array([",".join(map(str, pols))])
        ctx.ev("collapse_pol")
    if only_pol:
        u.collapse_pol(method=m)
        what = f"collapse_pol({m})"
    else:
        u.to_waterfall(method=m, keep_pol=keep, return_weights_square=wsq)
        what = f"{s.type} {s.mode} to_waterfall({m}, keep_pol={keep})"
        tt = np.unique(s.time_array)
        S = None
        if s.type == "antenna":
            y, W, _ = coll(x, w, m, 0)
            x = np.swapaxes(y, 0, 1)
            wn = np.ones(x.shape) if W is None or flagged else np.swapaxes(W, 0, 1)
            tt = s.time_array
            w = wn
            flagged = flagged and m in ("or", "and")
            ctx.ev("collapse_antenna")
        elif s.type == "baseline":
            r = [coll(x[s.time_array == t], w[s.time_array == t], m, 0) for t in tt]
            x = np.array([a[0] for a in r])
            w = np.ones(x.shape) if flagged or m in ("or", "and") else np.array([a[1] for a in r])
            if wsq and not flagged:
                S = np.array([a[2] for a in r])
                ctx.ev("weights_square")
            flagged = flagged and m in ("or", "and")
            ctx.ev("collapse_baseline")
        if s.type == "waterfall":
            tt = s.time_array
        ctx.check(u.type == "waterfall" and np.array_equal(u.time_array, tt), f"{what}: type/time axis")
        l0 = dict(zip(s.time_array.tolist(), s.lst_array.tolist()))
        ctx.check(all(l0[t] == l for t, l in zip(u.time_array.tolist(), u.lst_array.tolist())), f"{what}: LSTs moved between times")
        if S is not None:
            _arr(ctx, u.weights_square_array, S, f"{what} weights_square")
    ctx.check(np.array_equal(u.polarization_array, pols), f"{what}: polarizations {u.polarization_array}, expected {pols}")
    ctx.check(u.mode == ("flag" if flagged else "metric"), f"{what}: mode {u.mode}")
    if flagged:
        _arr(ctx, u.flag_array, np.asarray(x, bool), what)
    else:
        _arr(ctx, u.metric_array, np.asarray(x, float), what)
        _arr(ctx, u.weights_array, np.asarray(w, float), f"{what} weights")
    ctx.check(s.history in u.history, f"{what}: history lost")
    ctx.check(fc.ants(u) == fc.ants(s), f"{what}: antenna metadata changed")
    d = canon.diff(s, u, only={"freq_array", "channel_width", "flex_spw_id_array", "spw_array", "extra_keywords", "label", "telescope.name", "Nfreqs", "Nspws", "Ntimes"}, exact=True)
    ctx.check(not d, lambda: f"{what} changed {d[:2]}")
    bad = fc.counts(u)
    ctx.check(not bad, lambda: f"{what}: {bad[:2]}")
    u.check()
    ctx.ev("collapse_" + m)


def _wf_for(ctx, uv, src, mode, shuffle=None):
    """waterfall with the times/freqs of uv"""
    return gen.make_uvflag(ctx.rng, type="waterfall", mode=mode, uv=src if hasattr(src, "uvw_array") else None, cal=src if hasattr(src, "gain_array") else None, shuffle=shuffle)


def to_baseline(ctx):
    rng = ctx.rng
    uv = gen.make_uvdata(rng, nants=int(rng.integers(2, 6)), nphase=1)
    kind = gen.pick(rng, ["waterfall", "antenna"])
    mode = gen.pick(rng, ["flag", "metric"]) if kind == "waterfall" else "flag"
    if kind == "waterfall":
        u = gen.make_uvflag(rng, type="waterfall", mode=mode, uv=uv)
        if u.weights_square_array is not None and rng.integers(2):
            u.weights_square_array = None
    else:
        cal = gen.make_uvcal(rng, wide=False, cal_type="gain", tel=uv.telescope.copy(), times=np.unique(uv.time_array), time_range=False)
        cal.freq_array, cal.channel_width, cal.flex_spw_id_array = uv.freq_array.copy(), uv.channel_width.copy(), uv.flex_spw_id_array.copy()
        cal.spw_array, cal.Nspws, cal.Nfreqs = uv.spw_array.copy(), uv.Nspws, uv.Nfreqs
        sh = (cal.Nants_data, cal.Nfreqs, cal.Ntimes, cal.Njones)
        cal.gain_array, cal.flag_array, cal.quality_array, cal.total_quality_array = np.ones(sh, complex), np.zeros(sh, bool), None, None
        cal.flex_jones_array = None
        cal.check()
        u = gen.make_uvflag(rng, type="antenna", mode="flag", cal=cal)
    if not np.all(np.diff(u.time_array) > 0):
        ctx.ev("shuffled_times")
    # polarizations: make the object single-pol (forced) or give it those of uv
    if kind == "antenna" or rng.integers(2):
        pi = int(rng.integers(u.Npols))
        u.select(polarizations=[int(u.polarization_array[pi])])
        force = True
    else:
        force = bool(rng.integers(2))
    target = uv
    if rng.integers(3) == 0:
        target = UVFlag(uv, mode=gen.pick(rng, ["flag", "metric"]))
    if rng.integers(2):
        # antenna metadata in another order on the target
        o = rng.permutation(target.telescope.Nants)
        target.telescope = target.telescope.copy()
        for a in ("antenna_numbers", "antenna_names", "antenna_positions", "antenna_diameters"):
            v = getattr(target.telescope, a)
            if v is not None:
                setattr(target.telescope, a, v[o])
    s, st, an = copy.deepcopy(u), canon.snap(target), fc.ants(u)
    ctx.case(fc.describe(u), type(target).__name__, force)
    if isinstance(target, UVFlag) and target.mode == "metric":
        ctx.ev("metric_target")
    what = f"{kind} {mode} to_baseline"
    if u.Npols == 1 and target.Npols > 1:
        v = copy.deepcopy(u)
        ctx.raises(ValueError, lambda: v.to_baseline(target), f"{what} without force_pol")
        ctx.ev("pol_mismatch_refused")
    v = copy.deepcopy(u)
    v.freq_array = v.freq_array + 2e6
    ctx.raises(ValueError, lambda: v.to_baseline(target, force_pol=force), f"{what} with other frequencies")
    ctx.ev("freq_mismatch_refused")
    u.to_baseline(target, force_pol=force)
    d = canon.diff(st, target, exact=True)
    ctx.check(not d, lambda: f"{what} changed the target: {d[:2]}")
    ctx.check(u.type == "baseline" and np.array_equal(u.polarization_array, target.polarization_array), f"{what}: type/polarizations")
    for a in ("time_array", "lst_array", "ant_1_array", "ant_2_array", "baseline_array", "freq_array"):
        ctx.check(np.array_equal(getattr(u, a), getattr(target, a)), f"{what}: {a} is not that of the target")
    np_ = target.Npols
    tix = {t: i for i, t in enumerate(s.time_array.tolist())}
    ti = [tix[t] for t in target.time_array.tolist()]

    def exp(v):
        v = np.repeat(v, np_, axis=-1) if s.Npols == 1 else v
        return v

    if kind == "waterfall":
        if mode == "flag":
            _arr(ctx, u.flag_array, exp(s.flag_array)[ti], what)
        else:
            _arr(ctx, u.metric_array, exp(s.metric_array)[ti], what)
            _arr(ctx, u.weights_array, exp(s.weights_array)[ti], what + " weights")
    else:
        F = exp(s.flag_array)
        ai = {int(a): i for i, a in enumerate(s.ant_array)}
        want = np.ones(u.flag_array.shape, bool)
        for k, (a, b) in enumerate(zip(target.ant_1_array.tolist(), target.ant_2_array.tolist())):
            if a in ai and b in ai:
                want[k] = F[ai[a], :, ti[k]] | F[ai[b], :, ti[k]]
            else:
                ctx.ev("unknown_antenna")
        _arr(ctx, u.flag_array, want, what)
    ctx.check(fc.ants(u) == an, f"{what}: antenna attributes swapped")
    bad = fc.counts(u)
    ctx.check(not bad, lambda: f"{what}: {bad[:2]}")
    ctx.check(s.history in u.history, f"{what}: history lost")
    u.check()
    ctx.ev("to_baseline_" + kind)
    if s.Npols == 1 and np_ > 1:
        ctx.ev("force_pol")


def to_antenna(ctx):
    rng = ctx.rng
    cal = gen.make_uvcal(rng, wide=False, cal_type="gain", time_range=False, nants=int(rng.integers(2, 6)))
    mode = gen.pick(rng, ["flag", "metric"])
    u = gen.make_uvflag(rng, type="waterfall", mode=mode, cal=cal, shuffle=False)
    force = bool(rng.integers(2))
    if force:
        u.select(polarizations=[int(u.polarization_array[0])])
    target = cal
    if rng.integers(2):
        target = UVFlag(cal, mode="flag")
    s, st, an = copy.deepcopy(u), canon.snap(target), fc.ants(u)
    ctx.case(fc.describe(u), type(target).__name__, force)
    if u.Npols == 1 and cal.Njones > 1:
        v = copy.deepcopy(u)
        ctx.raises(ValueError, lambda: v.to_antenna(target), "to_antenna without force_pol")
    v = copy.deepcopy(u)
    v.freq_array = v.freq_array + 2e6
    ctx.raises(ValueError, lambda: v.to_antenna(target, force_pol=force), "to_antenna with other frequencies")
    u.to_antenna(target, force_pol=force)
    d = canon.diff(st, target, exact=True)
    ctx.check(not d, lambda: f"to_antenna changed the target: {d[:2]}")
    ctx.check(u.type == "antenna" and np.array_equal(u.ant_array, target.ant_array) and np.array_equal(u.time_array, s.time_array), "to_antenna: axes")

    def exp(v):
        v = np.repeat(v, cal.Njones, axis=-1) if s.Npols == 1 else v
        return np.broadcast_to(np.swapaxes(v, 0, 1)[None], (cal.Nants_data,) + np.swapaxes(v, 0, 1).shape)

    for a in ("flag_array", "metric_array", "weights_array"):
        if getattr(s, a) is not None:
            _arr(ctx, getattr(u, a), exp(getattr(s, a)), "to_antenna " + a)
    ctx.check(fc.ants(u) == an, "to_antenna: antenna attributes swapped")
    bad = fc.counts(u)
    ctx.check(not bad, lambda: f"to_antenna: {bad[:2]}")
    u.check()
    ctx.ev("to_antenna")


def modes(ctx):
    rng = ctx.rng
    u = gen.make_uvflag(rng, infs=True, flag_p=gen.pick(rng, [0.3, 0.8, 0.9]))
    s = copy.deepcopy(u)
    if u.mode == "metric":
        vals = s.metric_array[np.isfinite(s.metric_array)]
        th = gen.pick(rng, [None, 0.0, float(rng.choice(vals)) if vals.size else 1.0])
        ctx.case(fc.describe(u), th)
        u.to_flag(**({} if th is None else {"threshold": th}))
        _arr(ctx, u.flag_array, s.metric_array >= (np.inf if th is None else th), f"to_flag({th})")
        ctx.ev("to_flag")
    else:
        cw = bool(rng.integers(4))
        if rng.integers(2):
            # completely flagged rows and columns of one baseline / antenna
            g = u.flag_array
            if u.type == "baseline":
                r = u.baseline_array == rng.choice(u.baseline_array)
                if rng.integers(2):
                    g[r, int(rng.integers(u.Nfreqs))] = True
                else:
                    g[np.nonzero(r)[0][0]] = True
            elif u.type == "antenna":
                g[0, int(rng.integers(u.Nfreqs))] = True
            else:
                g[0] = True
        s = copy.deepcopy(u)
        ctx.case(fc.describe(u), cw)
        u.to_metric(convert_wgts=cw)
        _arr(ctx, u.metric_array, s.flag_array.astype(float), "to_metric")
        w = np.ones(s.flag_array.shape)
        if cw:
            F = s.flag_array

            def z(b):  # (time, freq) flags
                return np.where(b.all(axis=0)[None, :] | b.all(axis=1)[:, None], 0.0, 1.0)

            for p in range(s.Npols):
                if s.type == "waterfall":
                    w[:, :, p] = z(F[:, :, p])
                elif s.type == "baseline":
                    for bl in np.unique(s.baseline_array):
                        i = np.nonzero(s.baseline_array == bl)[0]
                        w[i, :, p] = z(F[i, :, p])
                else:
                    for a in range(F.shape[0]):
                        w[a, :, :, p] = z(F[a, :, :, p])
            ctx.ev("convert_wgts")
        _arr(ctx, u.weights_array, w, f"to_metric(convert_wgts={cw}) weights")
        ctx.ev("to_metric")
    bad = fc.counts(u)
    ctx.check(not bad, lambda: f"{bad[:2]}")
    d = canon.diff(s, u, ignore=set(fc.DATA) | {"mode", "history"}, exact=True)
    ctx.check(not d, lambda: f"mode conversion changed {d[:2]}")
    ctx.check(s.history in u.history, "history lost")


def combine(ctx):
    rng = ctx.rng
    u = gen.make_uvflag(rng, infs=True)
    if u.mode == "flag":
        o = gen.fill_uvflag(rng, copy.deepcopy(u))
        o.history = "the other one"
        s, so = copy.deepcopy(u), canon.snap(o)
        ctx.case(fc.describe(u), "or")
        if rng.integers(2):
            u |= o
            r = u
        else:
            r = u | o
            ctx.check(not canon.diff(s, u, exact=True), "or changed its operand")
        _arr(ctx, r.flag_array, s.flag_array | so["flag_array"], "or")
        ctx.check(not canon.diff(so, o, exact=True), "or changed the other operand")
        ctx.check(s.history in r.history and "the other one" in r.history, "history lost")
        d = canon.diff(s, r, ignore={"flag_array", "history"}, exact=True)
        ctx.check(not d, lambda: f"or changed {d[:2]}")
        ctx.ev("or")
        return
    n = int(rng.integers(1, 4))
    os_ = [gen.fill_uvflag(rng, copy.deepcopy(u), infs=True) for _ in range(n)]
    m = gen.pick(rng, ["mean", "absmean", "quadmean"])
    s, so = copy.deepcopy(u), [canon.snap(o) for o in os_]
    ctx.case(fc.describe(u), m, n)
    x = np.array([s.metric_array] + [o["metric_array"] for o in so])
    w = np.array([s.weights_array] + [o["weights_array"] for o in so])
    y, W, _ = coll(x, w, m, 0)
    inp = bool(rng.integers(2))
    r = u.combine_metrics(os_[0] if n == 1 and rng.integers(2) else os_, method=m, inplace=inp)
    if inp:
        r = u
    else:
        ctx.check(not canon.diff(s, u, exact=True), "combine_metrics changed its operand")
    _arr(ctx, r.metric_array, y, f"combine_metrics({m})")
    _arr(ctx, r.weights_array, W, f"combine_metrics({m}) weights")
    ctx.check(all(not canon.diff(a, b, exact=True) for a, b in zip(so, os_)), "combine_metrics changed another operand")
    ctx.ev("combine")


def _reorder_uvf(rng, u, rowp=None, fp=None, pp=None):
    for ax, p in enumerate((rowp, fp, pp)):
        if p is not None:
            u.flag_array = np.take(u.flag_array, p, axis=ax)
    if rowp is not None:
        for a in ("time_array", "lst_array", "ant_1_array", "ant_2_array", "baseline_array"):
            setattr(u, a, getattr(u, a)[rowp])
    if fp is not None:
        for a in ("freq_array", "channel_width", "flex_spw_id_array"):
            setattr(u, a, getattr(u, a)[fp])
    if pp is not None:
        u.polarization_array = u.polarization_array[pp]


def apply(ctx):
    rng = ctx.rng
    uv = gen.make_uvdata(rng, nants=int(rng.integers(2, 6)), nphase=1, flag_p=gen.pick(rng, [0.0, 0.2]))
    kind = gen.pick(rng, ["baseline", "baseline", "waterfall", "antenna"])
    kw = {}
    F0 = uv.flag_array.copy()
    if rng.integers(4) == 0:
        kw["unflag_first"] = True
        F0[:] = False
        ctx.ev("apply_unflag")
    rowk = list(zip(uv.ant_1_array.tolist(), uv.ant_2_array.tolist(), uv.time_array.tolist()))
    evs = ["apply_" + kind]
    if kind == "baseline":
        u = UVFlag(uv, mode="flag")
        gen.fill_uvflag(rng, u)
        fm = bool(rng.integers(2))
        kw["flag_missing"] = fm
        if rng.integers(3) == 0 and uv.Npols > 1:
            u.select(polarizations=[int(u.polarization_array[0])])
            evs.append("force_pol")
        if rng.integers(4) == 0 and u.Nbls > 1:
            prs = sorted({r[:2] for r in rowk})
            keep = [prs[i] for i in rng.permutation(len(prs))[: len(prs) - 1]]
            i = np.nonzero([r[:2] in keep for r in rowk])[0]
            if len(np.unique(u.time_array[i])) == u.Ntimes:
                u.select(blt_inds=i)
                evs.append("apply_missing")
        rowp = fp = pp = None
        if rng.integers(3) == 0 and u.Nblts > 1:
            rowp = rng.permutation(u.Nblts)
            evs.append("apply_reordered")
        if rng.integers(4) == 0 and u.Nfreqs > 1:
            fp = np.arange(u.Nfreqs)[::-1]
            evs.append("apply_freq_order")
        if rng.integers(3) == 0 and u.Npols > 1:
            pp = rng.permutation(u.Npols)
            evs.append("apply_pol_order")
        _reorder_uvf(rng, u, rowp, fp, pp)
        one = gen.pick(rng, [None, None, None, "t", "f"])
        if one == "t":
            u.select(times=[u.time_array[0]])
            evs.append("apply_one_time")
        elif one == "f":
            u.select(freq_chans=[0])
            evs.append("apply_one_freq")
        u.check()
        rix = {(int(a), int(b)) + (() if u.Ntimes == 1 else (float(t),)): i for i, (a, b, t) in enumerate(zip(u.ant_1_array, u.ant_2_array, u.time_array))}
        prs = {k[:2] for k in rix}
        cix = {c: i for i, c in enumerate(fc.cols(u))}
        pix = {p: i for i, p in enumerate(fc.pols(u))}
        want = F0.copy()
        refuse = False
        for k, r in enumerate(rowk):
            if r[:2] not in prs:
                if fm:
                    want[k] = True
                continue
            i = rix.get(r[:2] if u.Ntimes == 1 else r)
            if i is None:
                refuse = True
                continue
            for j, c in enumerate(zip(uv.flex_spw_id_array.tolist(), uv.freq_array.tolist())):
                for p, pol in enumerate(uv.polarization_array.tolist()):
                    want[k, j, p] |= u.flag_array[i, 0 if u.Nfreqs == 1 else cix[c], 0 if u.Npols == 1 else pix[pol]]
        if refuse:
            raise Skip()
    elif kind == "waterfall":
        u = gen.make_uvflag(rng, type="waterfall", mode="flag", uv=uv)
        tix = {t: i for i, t in enumerate(u.time_array.tolist())}
        want = F0 | u.flag_array[[tix[t] for t in uv.time_array.tolist()]]
        if not np.all(np.diff(u.time_array) > 0):
            evs.append("shuffled_times")
    else:
        cal = gen.make_uvcal(rng, wide=False, cal_type="gain", tel=uv.telescope.copy(), times=np.unique(uv.time_array), time_range=False)
        u = UVFlag(cal, mode="flag")
        for a in ("freq_array", "channel_width", "flex_spw_id_array", "spw_array", "Nspws", "Nfreqs"):
            setattr(u, a, copy.deepcopy(getattr(uv, a)))
        u.polarization_array, u.Npols = u.polarization_array[:1], 1
        u.flag_array = rng.random((u.Nants_data, u.Nfreqs, u.Ntimes, 1)) < 0.3
        u.check()
        ai = {int(a): i for i, a in enumerate(u.ant_array)}
        tix = {t: i for i, t in enumerate(u.time_array.tolist())}
        want = F0.copy()
        for k, (a, b, t) in enumerate(rowk):
            want[k] |= (u.flag_array[ai[a], :, tix[t]] | u.flag_array[ai[b], :, tix[t]]) if a in ai and b in ai else True
    ctx.case(fc.describe(u), kw, evs)
    s, su = canon.snap(uv), canon.snap(u)
    what = f"apply_uvflag of a {kind} object ({evs[1:]}, {kw})"
    inp = bool(rng.integers(2))
    o = uv.copy() if inp else uv
    r = utils.apply_uvflag(o, u, inplace=inp, **kw)
    r = o if inp else r
    ctx.check(not canon.diff(s, uv, exact=True), f"{what} changed the original")
    d = canon.diff(su, u, exact=True)
    ctx.check(not d, lambda: f"{what} changed the flag object: {d[:2]}")
    _arr(ctx, r.flag_array, want, what)
    d = canon.diff(s, r, ignore={"flag_array", "history"}, exact=True)
    ctx.check(not d, lambda: f"{what} changed {d[:2]}")
    ctx.check(s["history"] in r.history, f"{what}: history lost")
    for e in evs:
        ctx.ev(e)
    # refused: other times, other frequencies, metrics
    if kind == "baseline":
        c = gen.pick(rng, ["t-", "t+", "f-", "f+", "m"])
        v = copy.deepcopy(u)
        if c[0] == "t" and v.Ntimes > 1:
            v.time_array = v.time_array + (0.3 if c[1] == "+" else -0.3)
        elif c[0] == "f" and v.Nfreqs > 1:
            v.freq_array = v.freq_array + (3e6 if c[1] == "+" else -3e6)
        else:
            v.to_metric(run_check=False)
        o = uv.copy()
        ctx.raises(ValueError, lambda: utils.apply_uvflag(o, v, **kw), f"applying flags of other {c}")
        d = canon.diff(s, o, exact=True)
        ctx.check(not d, lambda: f"refused apply_uvflag changed the data: {d[:2]}")
        ctx.ev("apply_refused")


def make(ctx):
    rng = ctx.rng
    cal = bool(rng.integers(2))
    src = gen.make_uvcal(rng, wide=False, cal_type="gain", time_range=False) if cal else gen.make_uvdata(rng, nphase=1, nants=int(rng.integers(2, 6)))
    s = canon.snap(src)
    ctx.case("cal" if cal else "uv", src.Ntimes, src.Nfreqs)
    u = UVFlag(src, mode=gen.pick(rng, ["flag", "metric"]), copy_flags=True)
    ctx.check(u.mode == "flag" and u.type == ("antenna" if cal else "baseline"), "copy_flags: type")
    _arr(ctx, u.flag_array, s["flag_array"], "copied flags")
    ctx.check(not np.shares_memory(u.flag_array, src.flag_array), "copied flags share memory with the source")
    u.flag_array[:] = ~u.flag_array
    u.time_array += 1.0
    ctx.check(not canon.diff(s, src, exact=True), "changing the flag object changed its source")
    ctx.ev("copy_flags")
    keep = bool(rng.integers(2))
    fl = None if rng.integers(2) else rng.random(s["flag_array"].shape) < 0.4
    F = s["flag_array"] if fl is None else fl
    w = flags2waterfall(src, flag_array=fl, keep_pol=keep)
    if cal:
        want = np.swapaxes(F.mean(axis=0), 0, 1)
    else:
        want = np.array([F[s["time_array"] == t].mean(axis=0) for t in np.unique(s["time_array"])])
    if not keep:
        want = want.mean(axis=-1)
    _arr(ctx, w, want, f"flags2waterfall(keep_pol={keep})")
    ctx.ev("flags2waterfall")


SCENARIOS = [
    Scenario("collapse", collapse, 400, 3000),
    Scenario("to_baseline", to_baseline, 300, 2500),
    Scenario("to_antenna", to_antenna, 100, 800),
    Scenario("modes", modes, 200, 1800),
    Scenario("combine", combine, 150, 1200),
    Scenario("apply", apply, 500, 3000),
    Scenario("make", make, 100, 800),
]
