"""C12 Frequency averaging."""
import numpy as np

from vmon import canon, gen
from vmon.core import Scenario
from vmon.props import common

RULE = (
    "random objects (1-4 windows, contiguous or interleaved channels, ascending or descending, varying widths, random flags incl. fully "
    "flagged groups, random weights of every precision, bandpass coefficients, flexible polarization) are averaged with random options; an own "
    "per-group loop computes every output sample; non-trivial = distinct (object, options)"
)
REQUIRED = ["averaged", "ragged_kept", "ragged_dropped", "propagate", "summing", "merge_windows", "fully_flagged_group", "partly_flagged_group",
            "interleaved_windows", "eq_coeffs", "flex_pol", "factor_ge_nchan", "half_precision", "window_dropped", "metadata_only", "flex_pol_refused"]


def _mk(ctx, **kw):
    rng = ctx.rng
    uv = gen.make_uvdata(rng, nspw=int(rng.integers(1, 5)), chans=None if rng.integers(2) else int(rng.integers(2, 9)), nbl=int(rng.integers(1, 4)),
                         ntimes=int(rng.integers(1, 3)), flag_p=gen.pick(rng, [0.0, 0.2, 0.6, 0.9]), **kw)
    if rng.integers(4) == 0 and uv.Nspws > 1:
        uv.reorder_freqs(channel_order=rng.permutation(uv.Nfreqs))
    if rng.integers(4) == 0:
        uv.eq_coeffs = rng.uniform(0.5, 2, (uv.telescope.Nants, uv.Nfreqs))
        uv.eq_coeffs_convention = "divide"
        ctx.ev("eq_coeffs")
    r = rng.integers(4)
    if r == 0:
        uv.nsample_array = uv.nsample_array.astype(np.float16)
        ctx.ev("half_precision")
    elif r == 1:
        uv.nsample_array = uv.nsample_array.astype(np.float64)
    if rng.integers(3) == 0:
        # whole groups flagged
        uv.flag_array[:, rng.random(uv.Nfreqs) < 0.4] = True
    return uv


def s_avg(ctx):
    rng = ctx.rng
    uv = _mk(ctx)
    flexpol = rng.integers(6) == 0 and uv.Npols > 1
    if flexpol:
        uv.convert_to_flex_pol()
        ctx.ev("flex_pol")
    n = int(gen.pick(rng, [1, 2, 2, 3, 4, 5, 9]))
    opts = {}
    if rng.integers(3) == 0:
        opts["summing_correlator_mode"] = True
        ctx.ev("summing")
    if rng.integers(3) == 0:
        opts["propagate_flags"] = True
        ctx.ev("propagate")
    if rng.integers(2):
        opts["keep_ragged"] = bool(rng.integers(2))
    if rng.integers(3) == 0:
        opts["respect_spws"] = bool(rng.integers(2))
    meta = rng.integers(8) == 0
    if meta:
        uv = uv.copy(metadata_only=True)
        ctx.ev("metadata_only")
    what = f"frequency_average({n}, {opts})"
    before = uv.copy()
    merge = uv.Nspws > 1 and opts.get("respect_spws") is False
    if merge and flexpol and len(set(np.asarray(uv.flex_spw_polarization_array).tolist())) > 1:
        ctx.raises(ValueError, lambda: uv.frequency_average(n, **opts), what + " across windows of different polarization")
        d = canon.diff(before, uv, exact=True)
        ctx.check(not d, f"refused {what} changed the object: {d[:2]}")
        ctx.ev("flex_pol_refused")
        ctx.case("flexmerge", common.describe_uv(before), n, opts)
        return
    if not merge and (np.diff(uv.flex_spw_id_array) != 0).sum() + 1 > uv.Nspws:
        # channels of different windows interspersed: refused, nothing done
        ctx.raises(ValueError, lambda: uv.frequency_average(n, **opts), what + " on interspersed windows")
        d = canon.diff(before, uv, exact=True)
        ctx.check(not d, f"refused {what} changed the object: {d[:2]}")
        ctx.ev("interleaved_windows")
        return
    groups = []  # (spw, channel indices)
    if merge:
        wins = [(0, np.arange(uv.Nfreqs))]
        ctx.ev("merge_windows")
    else:
        wins = [(int(s), np.nonzero(uv.flex_spw_id_array == s)[0]) for s in uv.spw_array]
    dropped = False
    for s, ch in wins:
        if n >= ch.size:
            ctx.ev("factor_ge_nchan")
        got = False
        for k in range(0, ch.size, n):
            g = ch[k:k + n]
            if g.size < n:
                if not opts.get("keep_ragged", True):
                    ctx.ev("ragged_dropped")
                    continue
                ctx.ev("ragged_kept")
            groups.append((s, g))
            got = True
        if not got:
            dropped = True
    if not groups:
        return
    if dropped:
        ctx.ev("window_dropped")
    uv.frequency_average(n, **opts)
    ctx.check(uv.Nfreqs == len(groups) == uv.freq_array.size, f"{what}: {uv.Nfreqs} channels, {len(groups)} expected")
    # output channels of each window, in order
    for s in {g[0] for g in groups}:
        out = np.nonzero(uv.flex_spw_id_array == s)[0]
        gs = [g for w, g in groups if w == s]
        ctx.check(out.size == len(gs), f"{what}: window {s} has {out.size} channels, {len(gs)} expected")
        for o, g in zip(out, gs):
            ctx.check(abs(uv.freq_array[o] - before.freq_array[g].mean()) < 1e-3, f"{what}: frequency of window {s} channel {o}: {uv.freq_array[o]} expected {before.freq_array[g].mean()}")
            ctx.check(abs(uv.channel_width[o] - before.channel_width[g].sum()) < 1e-3, f"{what}: width of window {s} channel {o}: {uv.channel_width[o]} expected {before.channel_width[g].sum()}")
            if before.eq_coeffs is not None:
                ctx.check(np.allclose(uv.eq_coeffs[:, o], before.eq_coeffs[:, g].mean(1)), f"{what}: bandpass coefficients of channel {o}")
            if meta:
                continue
            d, f, w = before.data_array[:, g].astype(complex), before.flag_array[:, g], before.nsample_array[:, g].astype(float)
            allf = f.all(1)
            if allf.any():
                ctx.ev("fully_flagged_group")
            if (f.any(1) & ~allf).any():
                ctx.ev("partly_flagged_group")
            use = ~f | allf[:, None]
            wf = f.any(1) if opts.get("propagate_flags") else allf
            wd = (d * use).sum(1) if opts.get("summing_correlator_mode") else (d * w * use).sum(1) / (w * use).sum(1)
            wn = (w * use).sum(1) / g.size
            sc = np.abs(d).max() * g.size
            ctx.check(np.array_equal(uv.flag_array[:, o], wf), f"{what}: flags of window {s} channel {o} are wrong")
            ctx.check(np.allclose(uv.data_array[:, o], wd, atol=3e-6 * sc, rtol=0), lambda: f"{what}: data of window {s} channel {o}: {uv.data_array[:, o].ravel()[:3]} expected {wd.ravel()[:3]}")
            ctx.check(np.allclose(uv.nsample_array[:, o], wn, rtol=2e-3 if uv.nsample_array.dtype == np.float16 else 1e-5), lambda: f"{what}: weights of window {s} channel {o}: {uv.nsample_array[:, o].ravel()[:3]} expected {wn.ravel()[:3]}")
    if not meta:
        ctx.check(uv.data_array.dtype == before.data_array.dtype and uv.nsample_array.dtype == before.nsample_array.dtype, f"{what}: precision changed")
    d = canon.diff(before, uv, exact=True, ignore=("Nfreqs", "Nspws", "spw_array", "flex_spw_id_array", "freq_array", "channel_width", "data_array", "flag_array",
                                                   "nsample_array", "eq_coeffs", "history", "flex_spw_polarization_array"))
    ctx.check(not d, lambda: f"{what} changed other quantities: {d[:3]}")
    common.sane(ctx, uv, what)
    ctx.check(set(np.asarray(uv.spw_array).tolist()) == set(np.asarray(uv.flex_spw_id_array).tolist()), f"{what}: windows {uv.spw_array} but channels belong to {sorted(set(uv.flex_spw_id_array.tolist()))}")
    if flexpol and before.flex_spw_polarization_array is not None:
        a = dict(zip(np.asarray(before.spw_array).tolist(), np.asarray(before.flex_spw_polarization_array).tolist()))
        if not merge:
            b = dict(zip(np.asarray(uv.spw_array).tolist(), np.asarray(uv.flex_spw_polarization_array).tolist()))
            ctx.check(all(a[k] == b[k] for k in b), f"{what}: polarization of the windows changed: {a} -> {b}")
    uv.check()
    ctx.ev("averaged")
    ctx.case("avg", common.describe_uv(before), n, opts)


SCENARIOS = [Scenario("avg", s_avg, 1500, 30000)]
