"""C28 Calibration objects are selected, combined and reordered faithfully."""
import copy

import numpy as np

from pyuvdata import UVCal
from vmon import canon, gen
from vmon.core import Scenario, Skip
from vmon.props import calcommon as cc

RULE = (
    "random calibration objects (gain/delay, wide-band or per-channel windows, time arrays or ranges, optional qualities, catalogs, "
    "reference antennas) with uniquely tagged solutions; select by random keyword combinations, cut into blocks and recombine with + or "
    "fast_concat in random order, partially overlapping blocks, random reordering sequences, delay-to-gain conversion, keyed access; "
    "the (antenna, window, frequency, time, Jones) solution ledger is compared. non-trivial = distinct (object, operation)"
)
REQUIRED = ["select_ant", "select_freq", "select_spw", "select_time", "select_lst", "select_lst_arc", "lst_range_wraps", "object_lst_wraps", "select_jones", "select_pc", "select_refused", "select_unevenness",
            "add_ant", "add_freq", "add_time", "add_jones", "add_blocks", "add_partial_overlap", "overlap_refused", "concat_antenna", "concat_freq",
            "concat_spw", "concat_time", "concat_jones", "concat_refused", "reordered", "to_gain", "keyed", "with_scan", "with_flexjones", "with_tqa", "renumbered",
            "quality_missing_in_one",
            "total_quality_missing_in_one", "concat_quality_missing", "concat_total_quality_missing", "partial_total_quality"]


def _make(ctx, **kw):
    rng = ctx.rng
    c = gen.make_uvcal(rng, nants=int(rng.integers(2, 6)), ntimes=int(rng.integers(1, 5)), **kw)
    if c.scan_number_array is not None:
        ctx.ev("with_scan")
    if c.total_quality_array is not None:
        ctx.ev("with_tqa")
    return c


def _cut(rng, n, k=2):
    k = min(n, k)
    lab = np.concatenate([np.arange(k), rng.integers(0, k, n - k)])
    lab = rng.permutation(lab) if rng.integers(2) else np.sort(lab)
    return [np.nonzero(lab == i)[0] for i in range(k)]


def _take(c, ai=None, fi=None, ti=None, ji=None):
    """independent selection by index: build with numpy only, on a copy."""
    n = copy.deepcopy(c)
    wide = c.wide_band
    ax = {0: ai, 1: fi, 2: ti, 3: ji}
    for a in ("gain_array", "delay_array", "flag_array", "quality_array"):
        v = getattr(n, a)
        if v is not None:
            for k, i in ax.items():
                if i is not None:
                    v = np.take(v, i, axis=k)
            setattr(n, a, v)
    if n.total_quality_array is not None:
        v = n.total_quality_array
        for k, i in ax.items():
            if k and i is not None:
                v = np.take(v, i, axis=k - 1)
        n.total_quality_array = v
    if ai is not None:
        n.ant_array = n.ant_array[ai]
        n.Nants_data = len(ai)
    if fi is not None:
        if wide:
            n.spw_array = n.spw_array[fi]
            n.freq_range = n.freq_range[fi]
            n.Nspws = len(fi)
            if n.flex_jones_array is not None:
                n.flex_jones_array = n.flex_jones_array[fi]
        else:
            n.freq_array, n.channel_width, n.flex_spw_id_array = n.freq_array[fi], n.channel_width[fi], n.flex_spw_id_array[fi]
            n.Nfreqs = len(fi)
            keep = np.isin(n.spw_array, n.flex_spw_id_array)
            n.spw_array = n.spw_array[keep]
            n.Nspws = int(keep.sum())
            if n.flex_jones_array is not None:
                n.flex_jones_array = n.flex_jones_array[keep]
    if ti is not None:
        for a in ("time_array", "time_range", "lst_array", "lst_range", "integration_time", "phase_center_id_array", "ref_antenna_array", "scan_number_array"):
            v = getattr(n, a)
            if v is not None:
                setattr(n, a, v[ti])
        n.Ntimes = len(ti)
    if ji is not None:
        n.jones_array = n.jones_array[ji]
        n.Njones = len(ji)
    return n


def _same(ctx, what, a, b, tqa=True, tol=0.0):
    bad = cc.counts(b)
    ctx.check(not bad, f"{what}: counts are wrong: {bad[:2]}")
    (sa, ta), (sb, tb) = cc.sol(a), cc.sol(b)
    d = cc.soldiff(sa, sb, tol)
    ctx.check(d is None, lambda: f"{what}: {d}")
    if tqa:
        d = cc.soldiff(ta, tb, tol)
        ctx.check(d is None, lambda: f"{what}: total quality: {d}")
    d2 = cc.mdiff(cc.tmeta(a), cc.tmeta(b))
    ctx.check(d2 is None, lambda: f"{what}: time metadata: {d2}")
    d3 = cc.mdiff(cc.fmeta(a), cc.fmeta(b))
    ctx.check(d3 is None, lambda: f"{what}: channel widths: {d3}")
    d4 = canon.diff(a, b, only=set(cc.TELK) | {"cal_style", "cal_type", "gain_convention", "wide_band", "ref_antenna_name", "gain_scale", "pol_convention"}, exact=True)
    ctx.check(not d4, lambda: f"{what}: metadata changed: {d4[:2]}")


def select(ctx):
    rng = ctx.rng
    c = _make(ctx, catalog=bool(rng.integers(2)))
    if c.phase_center_id_array is not None and c.Ntimes > 1:
        cid = c._add_phase_center("other", cat_type="sidereal", cat_lon=2.0, cat_lat=-0.2, cat_frame="icrs", cat_epoch=2000.0)
        c.phase_center_id_array = np.where(np.arange(c.Ntimes) % 2 == 0, c.phase_center_id_array, cid)
    before = copy.deepcopy(c)
    kw = {}
    A, F, T, J = [np.ones(n, bool) for n in (c.Nants_data, len(cc.fkeys(c)), c.Ntimes, c.Njones)]
    if rng.integers(2):
        pick = rng.permutation(c.Nants_data)[: int(rng.integers(1, c.Nants_data + 1))]
        A[:] = False
        A[pick] = True
        nums = c.ant_array[pick]
        if rng.integers(2):
            kw["antenna_nums"] = nums.tolist() if len(nums) > 1 or rng.integers(2) else int(nums[0])
        else:
            names = dict(zip(c.telescope.antenna_numbers.tolist(), c.telescope.antenna_names))
            kw["antenna_names"] = [names[int(x)] for x in nums]
        ctx.ev("select_ant")
    how = gen.pick(rng, ["none", "freqs", "chans", "spws", "spws+chans"])
    if c.wide_band:
        how = gen.pick(rng, ["none", "spws"])
    if how != "none":
        m = np.zeros(len(F), bool)
        if "spws" in how and c.Nspws > 1:
            s = rng.choice(c.spw_array, int(rng.integers(1, c.Nspws + 1)), replace=False)
            kw["spws"] = s
            m |= np.isin(c.spw_array if c.wide_band else c.flex_spw_id_array, s)
            ctx.ev("select_spw")
        if "chans" in how:
            ch = rng.permutation(c.Nfreqs)[: int(rng.integers(1, c.Nfreqs + 1))]
            kw["freq_chans"] = ch
            m[ch] = True
            ctx.ev("select_freq")
        if how == "freqs":
            f = rng.choice(c.freq_array, int(rng.integers(1, c.Nfreqs + 1)), replace=False)
            kw["frequencies"] = f
            m |= np.isin(c.freq_array, f)
            ctx.ev("select_freq")
        if "spws" in kw or "freq_chans" in kw or "frequencies" in kw:
            F = m
            if np.unique(np.diff(np.nonzero(m)[0])).size > 1:
                ctx.ev("select_unevenness")
    tkind = gen.pick(rng, ["none", "times", "time_range", "lsts", "lst_range"])
    ranged = c.time_range is not None
    if tkind in ("times", "time_range"):
        mid = c.time_range.mean(1) if ranged else c.time_array
        if tkind == "times":
            p = rng.permutation(c.Ntimes)[: int(rng.integers(1, c.Ntimes + 1))]
            kw["times"] = mid[p]
            T = np.zeros(c.Ntimes, bool)
            T[p] = True
        else:
            lo, hi = np.sort(rng.choice(mid, 2))
            e = 1e-5 if not ranged else 0.0
            kw["time_range"] = [lo - e, hi + e]
            if ranged:
                T = (c.time_range[:, 0] <= hi) & (c.time_range[:, 1] >= lo)
            else:
                T = (mid >= lo - e) & (mid <= hi + e)
        ctx.ev("select_time")
    elif tkind in ("lsts", "lst_range") and ranged:
        # ranges of sidereal time are arcs of a circle: a solution is kept when its arc overlaps the one asked for
        if rng.integers(2):
            edges = np.sort(rng.uniform(0, 2.5, 2 * c.Ntimes)).reshape(-1, 2)
            if np.diff(edges.ravel()).min() < 1e-3 or np.diff(edges, axis=1).max() > 0.9:
                raise Skip("edge")
            c.time_range = (2457458.0 + edges)[rng.permutation(c.Ntimes)]
            c.set_lsts_from_time_array()
            before = copy.deepcopy(c)
        tau = 2 * np.pi
        lr = c.lst_range
        length = (lr[:, 1] - lr[:, 0]) % tau

        def within(i, x):
            return (x - lr[i, 0]) % tau <= length[i]

        def clear(x):
            g = np.abs((lr.ravel() - x + np.pi) % tau - np.pi).min()
            if g < 1e-7 or not 1e-7 < x < tau - 1e-7:
                raise Skip("edge")
            return float(x)

        def some():
            if rng.integers(3):
                i = int(rng.integers(c.Ntimes))
                return clear((lr[i, 0] + rng.uniform(-0.6, 1.6) * length[i]) % tau)
            return clear(rng.uniform(0, tau))

        if tkind == "lsts":
            p = rng.permutation(c.Ntimes)[: int(rng.integers(1, c.Ntimes + 1))]
            kw["lsts"] = np.array([clear((lr[i, 0] + rng.uniform(0.1, 0.9) * length[i]) % tau) for i in p])
            T = np.array([any(within(i, x) for x in kw["lsts"]) for i in range(c.Ntimes)])
        else:
            lo, hi = some(), some()
            if abs(lo - hi) < 1e-7:
                raise Skip("edge")
            kw["lst_range"] = [lo, hi]
            T = np.array([within(i, lo) or within(i, hi) or (lr[i, 0] - lo) % tau <= (hi - lo) % tau for i in range(c.Ntimes)])
            if hi < lo:
                ctx.ev("lst_range_wraps")
        if (lr[:, 1] < lr[:, 0]).any():
            ctx.ev("object_lst_wraps")
        ctx.ev("select_lst_arc")
    elif tkind in ("lsts", "lst_range") and not ranged:
        ls = c.lst_array
        if tkind == "lsts":
            p = rng.permutation(c.Ntimes)[: int(rng.integers(1, c.Ntimes + 1))]
            kw["lsts"] = ls[p]
            T = (np.abs(ls[:, None] - ls[p][None]) < 1e-9).any(1)
        else:
            i, j = rng.integers(0, c.Ntimes, 2)
            lo, hi = ls[i] - 1e-7, ls[j] + 1e-7
            if lo < 0 or hi > 2 * np.pi or abs(hi - lo) < 1e-6 and i != j:
                raise Skip("edge")
            kw["lst_range"] = [lo, hi]
            T = (ls >= lo) & (ls <= hi) if lo <= hi else (ls >= lo) | (ls <= hi)
        ctx.ev("select_lst")
    if c.phase_center_id_array is not None and rng.integers(3) == 0:
        k = int(rng.choice(np.unique(c.phase_center_id_array)))
        if rng.integers(2):
            kw["phase_center_ids"] = [k]
        else:
            kw["catalog_names"] = c.phase_center_catalog[k]["cat_name"]
        T = T & (c.phase_center_id_array == k)
        ctx.ev("select_pc")
    if rng.integers(3) == 0:
        p = rng.permutation(c.Njones)[: int(rng.integers(1, c.Njones + 1))]
        kw["jones"] = c.jones_array[p].tolist() if len(p) > 1 or rng.integers(2) else int(c.jones_array[p[0]])
        J = np.zeros(c.Njones, bool)
        J[p] = True
        ctx.ev("select_jones")
    bad = rng.integers(8) == 0
    if bad:
        b = gen.pick(rng, ["ant", "freq", "time", "jones", "name"])
        if b == "ant":
            kw.pop("antenna_names", None)
            kw["antenna_nums"] = [9999]
        elif b == "name":
            kw.pop("antenna_nums", None)
            kw["antenna_names"] = ["nobody"]
        elif b == "freq" and not c.wide_band:
            kw["frequencies"] = [1.0]
        elif b == "time":
            for x in ("time_range", "lsts", "lst_range"):
                kw.pop(x, None)
            kw["times"] = [1.0]
        else:
            kw["jones"] = [17]
        ctx.raises(ValueError, lambda: c.select(**kw), f"select with an absent {b}")
        d = canon.diff(before, c, exact=True)
        ctx.check(not d, f"refused select changed {d[:2]}")
        ctx.ev("select_refused")
        ctx.case("bad", b, *cc.describe(c))
        return
    ctx.case("select", *cc.describe(c), sorted(kw), F, T)
    inpl = bool(rng.integers(2))
    if not (A.any() and F.any() and T.any() and J.any()):
        ctx.raises(ValueError, lambda: c.select(**kw), f"select matching nothing {kw}")
        d = canon.diff(before, c, exact=True)
        ctx.check(not d, f"refused select changed {d[:2]}")
        ctx.ev("select_refused")
        return
    r = c.select(inplace=inpl, **kw)
    if inpl:
        r = c
    else:
        d = canon.diff(before, c, exact=True)
        ctx.check(not d, f"select(inplace=False) changed the original: {d[:2]}")
    want = _take(before, *[None if m.all() else np.nonzero(m)[0] for m in (A, F, T, J)])
    what = f"select({ {k: str(v)[:60] for k, v in kw.items()} })"
    _same(ctx, what, want, r)
    ctx.check(np.array_equal(want.ant_array, r.ant_array) and cc.fkeys(want) == cc.fkeys(r) and cc.tkeys(want) == cc.tkeys(r) and cc.jkeys(want) == cc.jkeys(r),
              f"{what} changed the order of an axis")
    ctx.check(r.history.startswith(before.history), "select dropped the history")


def _renumber(ctx, c):
    if c.phase_center_catalog is None:
        return
    old = list(c.phase_center_catalog)
    new = [int(v) for v in ctx.rng.choice(np.arange(60), len(old), replace=False)]
    m = dict(zip(old, new))
    c.phase_center_catalog = {m[k]: copy.deepcopy(v) for k, v in c.phase_center_catalog.items()}
    c.phase_center_id_array = np.array([m[int(k)] for k in c.phase_center_id_array])
    ctx.ev("renumbered")


def _shuffled(ctx, p):
    """independent random reorder of a piece (keeping windows contiguous)."""
    rng = ctx.rng
    q = dict(ai=rng.permutation(p.Nants_data), ti=rng.permutation(p.Ntimes), ji=rng.permutation(p.Njones)) if rng.integers(2) else {}
    if rng.integers(2):
        if p.wide_band:
            q["fi"] = rng.permutation(p.Nspws)
        elif rng.integers(2):
            q["fi"] = np.arange(p.Nfreqs)[::-1]
    r = _take(p, **q)
    if "fi" in q and not p.wide_band:
        # window list follows channel order
        o = p.spw_array
        r.spw_array = np.array(list(dict.fromkeys(r.flex_spw_id_array.tolist())))
        if r.flex_jones_array is not None:
            r.flex_jones_array = np.array([int(np.asarray(p.flex_jones_array)[np.nonzero(np.asarray(o) == s)[0][0]]) for s in r.spw_array])
    return r


def _flex(ctx, c):
    """sometimes make a flex-Jones object out of it."""
    if ctx.rng.integers(5) == 0:
        c.convert_to_flex_jones()
        if c.flex_jones_array is not None:
            ctx.ev("with_flexjones")
    return c


def add(ctx):
    rng = ctx.rng
    ranged = bool(rng.integers(5) == 0)
    c = _flex(ctx, _make(ctx, time_range=ranged))
    # the catalog must name every center only once; the windows are ordered
    axes = {"ant": c.Nants_data, "freq": len(cc.fkeys(c)), "time": c.Ntimes, "jones": c.Njones}
    cand = [a for a, n in axes.items() if n > 1]
    if ranged:
        cand = [a for a in cand if a == "time"]
    if not cand:
        raise Skip("nothing to cut")
    nax = 2 if len(cand) > 1 and rng.integers(3) == 0 else 1
    cut = [str(x) for x in rng.permutation(cand)[:nax]]
    name = {"ant": "ai", "freq": "fi", "time": "ti", "jones": "ji"}
    parts = {a: _cut(rng, axes[a], int(rng.integers(2, 4))) for a in cut}
    ctx.case("add", *cc.describe(c), c.flex_jones_array is not None, {a: [x.tolist() for x in p] for a, p in parts.items()})
    for a in cut:
        ctx.ev("add_" + a)
    if nax == 2:
        ctx.ev("add_blocks")
    blocks = nax == 2
    if blocks:  # first complete rows of blocks, then the rows
        rows = [[_shuffled(ctx, _take(c, **{name[cut[0]]: i, name[cut[1]]: j})) for j in parts[cut[1]]] for i in parts[cut[0]]]
        pieces = []
        for row in rows:
            o = rng.permutation(len(row))
            acc = row[o[0]]
            for n in o[1:]:
                acc = acc + row[n]
            pieces.append(acc)
    else:
        pieces = [_shuffled(ctx, _take(c, **{name[cut[0]]: i})) for i in parts[cut[0]]]
    if c.phase_center_catalog is not None and rng.integers(2) and cut == ["time"]:
        for p in pieces:
            _renumber(ctx, p)
    dropq = None
    if c.quality_array is not None and rng.integers(5) == 0:
        dropq = int(rng.integers(len(pieces)))
    dropt = None
    if c.total_quality_array is not None and rng.integers(3) == 0:
        dropt = int(rng.integers(len(pieces)))
    order = rng.permutation(len(pieces))
    whole = cc.sol(c)
    want_sol, want_tot = {}, {}
    acc = None
    tq_ok = "ant" not in cut
    had_quality = False
    for n, k in enumerate(order):
        p = pieces[k]
        if dropq == k:
            p.quality_array = None
            ctx.ev("quality_missing_in_one")
        if dropt == k:
            p.total_quality_array = None
            ctx.ev("total_quality_missing_in_one")
        s, t = cc.sol(p)
        want_sol.update(s)
        want_tot.update(t)
        had_quality |= p.quality_array is not None
        if acc is None:
            acc = p
            continue
        sa, so = canon.snap(acc), canon.snap(p)
        what = f"adding piece {k} of a cut along {cut}"
        # Block cuts: recombination is only well defined piece by piece
        if rng.integers(2):
            acc += p
        else:
            nacc = acc + p
            d = canon.diff(sa, acc, exact=True)
            ctx.check(not d, f"{what} changed the left operand: {d[:2]}")
            acc = nacc
        d = canon.diff(so, p, exact=True)
        ctx.check(not d, f"{what} changed the right operand: {d[:2]}")
        g, gt = cc.sol(acc)
        bad = cc.counts(acc)
        ctx.check(not bad, f"{what}: counts wrong {bad[:2]}")
        for key, v in want_sol.items():
            if v[2] is None and had_quality:
                v = (v[0], v[1], 0.0)
            ctx.check(g.get(key) == v, lambda: f"{what}: solution {key} is {g.get(key)}, was {v}")
        for key in set(g) - set(want_sol):
            ctx.check(g[key][1], lambda: f"{what}: solution {key} that no operand holds is not flagged")
        if tq_ok and want_tot:
            for key, v in want_tot.items():
                ctx.check(gt.get(key) == v, lambda: f"{what}: total quality {key} is {gt.get(key)}, was {v}")
            for key in set(gt) - set(want_tot):
                ctx.check(gt[key] == 0, lambda: f"{what}: total quality {key} that no operand holds is {gt[key]}")
    d = cc.mdiff(cc.tmeta(c), cc.tmeta(acc))
    ctx.check(d is None, lambda: f"recombined along {cut}: time metadata {d}")
    d = cc.mdiff(cc.fmeta(c), cc.fmeta(acc))
    ctx.check(d is None, lambda: f"recombined along {cut}: channels {d}")
    ctx.check(set(want_sol) == set(cc.sol(acc)[0]), "recombined object has other solutions than the whole")
    if dropq is None:
        d = cc.soldiff(whole[0], cc.sol(acc)[0])
        ctx.check(d is None, lambda: f"recombined along {cut}: {d}")
        if tq_ok and dropt is None:
            d = cc.soldiff(whole[1], cc.sol(acc)[1])
            ctx.check(d is None, lambda: f"recombined along {cut}: total quality {d}")
    acc.check()
    ctx.check(c.history in acc.history or acc.history.startswith(c.history[:10]), "history lost")


def partial(ctx):
    """two blocks that overlap along axes, but not in data."""
    rng = ctx.rng
    c = _make(ctx, time_range=False, catalog=False)
    dims = {"ai": c.Nants_data, "fi": len(cc.fkeys(c)), "ti": c.Ntimes, "ji": c.Njones}
    cand = [a for a, n in dims.items() if n > 1]
    if not cand:
        raise Skip("too small")
    sep = str(rng.choice(cand))  # this axis is disjoint
    x, y = _cut(rng, dims[sep], 2)
    sel1, sel2 = {sep: x}, {sep: y}
    for a in dims:
        if a != sep and dims[a] > 1 and rng.integers(2):
            n = dims[a]
            sel1[a] = np.sort(rng.permutation(n)[: int(rng.integers(1, n + 1))])
            sel2[a] = np.sort(rng.permutation(n)[: int(rng.integers(1, n + 1))])
    p, q = _shuffled(ctx, _take(c, **sel1)), _shuffled(ctx, _take(c, **sel2))
    ctx.case("partial", *cc.describe(c), {k: v.tolist() for k, v in sel1.items()}, {k: v.tolist() for k, v in sel2.items()})
    for z in (p, q):
        if rng.integers(4) == 0:
            z.quality_array = None
        if rng.integers(4) == 0:
            z.total_quality_array = None
    sp, sq = cc.sol(p), cc.sol(q)
    a0, b0 = canon.snap(p), canon.snap(q)
    r = p + q
    ctx.check(not canon.diff(a0, p, exact=True) and not canon.diff(b0, q, exact=True), "operands were modified")
    g, gt = cc.sol(r)
    hq = any(v[2] is not None for v in list(sp[0].values()) + list(sq[0].values()))
    for key, v in {**sp[0], **sq[0]}.items():
        if v[2] is None and hq:
            v = (v[0], v[1], 0.0)
        ctx.check(g.get(key) == v, lambda: f"sum of two partly overlapping blocks: solution {key} is {g.get(key)}, was {v}")
    for key in set(g) - set(sp[0]) - set(sq[0]):
        ctx.check(g[key][1], lambda: f"solution {key} that no operand holds is not flagged")
    # whole-array qualities can be combined when no antennas are added, and no element is described twice
    if (sp[1] or sq[1]) and set(q.ant_array.tolist()) <= set(p.ant_array.tolist()) and not set(sp[1]) & set(sq[1]):
        ctx.check(bool(gt) or not sp[1], "total quality of the first object is lost")
        if gt:
            for key, v in {**sp[1], **sq[1]}.items():
                ctx.check(gt.get(key) == v, lambda: f"sum of two partly overlapping blocks: total quality {key} is {gt.get(key)}, was {v}")
            ctx.ev("partial_total_quality")
    bad = cc.counts(r)
    ctx.check(not bad, f"counts wrong {bad[:2]}")
    for m, nm in ((cc.tmeta, "time"), (cc.fmeta, "channel")):
        d = cc.mdiff({**m(p), **m(q)}, m(r))
        ctx.check(d is None, lambda: f"sum of partly overlapping blocks: {nm} metadata {d}")
    ctx.ev("add_partial_overlap")
    # now with truly overlapping data: refused
    z = _take(c)
    a0 = canon.snap(z)
    o = _take(c, **{sep: x})
    ctx.raises(ValueError, lambda: z.__add__(o, inplace=bool(rng.integers(2))), "adding overlapping calibration data")
    ctx.check(not canon.diff(a0, z, exact=True), "a refused addition changed the object")
    ctx.ev("overlap_refused")


def concat(ctx):
    rng = ctx.rng
    c = _flex(ctx, _make(ctx))
    dims = {"antenna": ("ai", c.Nants_data), "time": ("ti", c.Ntimes), "jones": ("ji", c.Njones),
            ("spw" if c.wide_band else "freq"): ("fi", len(cc.fkeys(c)))}
    cand = [a for a, (k, n) in dims.items() if n > 1]
    if not cand:
        raise Skip("too small")
    axis = str(rng.choice(cand))
    k, n = dims[axis]
    parts = _cut(rng, n, int(rng.integers(2, 5)))
    ctx.case("concat", axis, *cc.describe(c), [p.tolist() for p in parts])
    pieces = [_take(c, **{k: i}) for i in parts]
    if axis == "time" and c.phase_center_catalog is not None:
        if c.Ntimes > 1 and rng.integers(2):
            for j, p in enumerate(pieces):
                cid = p._add_phase_center(f"src{j % 3}", cat_type="sidereal", cat_lon=0.1 * (j % 3), cat_lat=-0.2, cat_frame="icrs", cat_epoch=2000.0)
                p.phase_center_id_array[:] = cid
        for p in pieces:
            if rng.integers(2):
                _renumber(ctx, p)
    some_q = some_t = False
    if rng.integers(3) == 0:
        for p in pieces:
            if p.quality_array is not None and rng.integers(2):
                p.quality_array, some_q = None, True
            if p.total_quality_array is not None and rng.integers(2):
                p.total_quality_array, some_t = None, True
    snaps = [canon.snap(p) for p in pieces]
    sols = [cc.sol(p) for p in pieces]
    tms = [cc.tmeta(p) for p in pieces]
    refuse = rng.integers(5) == 0
    if refuse:
        q = pieces[1]
        if axis != "antenna":
            q.ant_array = q.ant_array[::-1].copy() if q.Nants_data > 1 else q.ant_array
            bad = q.Nants_data > 1
        else:
            q.jones_array = q.jones_array[::-1].copy()
            bad = q.Njones > 1
        if bad:
            ctx.raises(ValueError, lambda: pieces[0].fast_concat(pieces[1:], axis, inplace=False), f"fast_concat along {axis} with differing other axes")
            ctx.ev("concat_refused")
            return
    inpl = bool(rng.integers(2))
    if axis == "freq":
        ids = np.concatenate([p.flex_spw_id_array for p in pieces])
        if 1 + np.count_nonzero(np.diff(ids)) != len(np.unique(ids)):
            raise Skip("interspersed windows are refused")
    other = pieces[1:] if len(pieces) > 2 or rng.integers(2) else pieces[1]
    if isinstance(other, list) and rng.integers(3) == 0:
        other = tuple(other)
    r = pieces[0].fast_concat(other, axis, inplace=inpl)
    r = pieces[0] if inpl else r
    for i, p in enumerate(pieces):
        if i or not inpl:
            d = canon.diff(snaps[i], p, exact=True)
            ctx.check(not d, f"fast_concat along {axis} changed operand {i}: {d[:2]}")
    g, gt = cc.sol(r)
    what = f"fast_concat of {len(pieces)} objects along {axis}"
    want = {}
    for s, t in sols:
        want.update(s)
    if some_q and any(v[2] is not None for v in want.values()):
        # objects without qualities hold zeros
        want = {k: (v[0], v[1], 0.0 if v[2] is None else v[2]) for k, v in want.items()}
        ctx.ev("concat_quality_missing")
    d = cc.soldiff(want, g)
    ctx.check(d is None, lambda: f"{what}: {d}")
    if axis != "antenna":
        wt = {}
        for s, t in sols:
            wt.update(t)
        if some_t and wt:
            for key in gt:
                wt.setdefault(key, 0.0)
            ctx.ev("concat_total_quality_missing")
        d = cc.soldiff(wt, gt)
        ctx.check(d is None, lambda: f"{what}: total quality {d}")
    wtm = {}
    for t in tms:
        wtm.update(t)
    d = cc.mdiff(wtm, cc.tmeta(r))
    ctx.check(d is None, lambda: f"{what}: time metadata {d}")
    bad = cc.counts(r)
    ctx.check(not bad, f"{what}: counts {bad[:2]}")
    # order is the order of the operands
    order = np.concatenate(parts)
    src = {"ai": c.ant_array.tolist(), "ti": cc.tkeys(c), "ji": cc.jkeys(c), "fi": cc.fkeys(c)}[k]
    got = {"ai": r.ant_array.tolist(), "ti": cc.tkeys(r), "ji": cc.jkeys(r), "fi": cc.fkeys(r)}[k]
    ctx.check(got == [src[i] for i in order], f"{what}: axis is not in the order of the operands")
    ctx.ev("concat_" + axis)


def reorder(ctx):
    rng = ctx.rng
    c = _flex(ctx, _make(ctx))
    w = copy.deepcopy(c)
    hist = []
    for _ in range(int(rng.integers(1, 5))):
        op = gen.pick(rng, ["ant", "freq", "time", "jones"])
        if op == "ant":
            o = gen.pick(rng, ["number", "-number", "name", "-name", "perm"])
            c.reorder_antennas(rng.permutation(c.Nants_data) if o == "perm" else o)
            names = dict(zip(c.telescope.antenna_numbers.tolist(), c.telescope.antenna_names))
            key = c.ant_array.tolist() if "number" in o else [str(names[int(a)]) for a in c.ant_array]
            want = sorted(key, reverse=o[0] == "-")
        elif op == "freq":
            if c.Nspws == 1 and (c.wide_band or c.Nfreqs == 1):
                continue
            o = gen.pick(rng, ["number", "-number", "freq", "-freq", "perm"])
            if c.wide_band:
                c.reorder_freqs(spw_order=rng.permutation(c.Nspws) if o == "perm" else o)
                key = c.spw_array.tolist() if "number" in o else c.freq_range.mean(1).tolist()
                want = sorted(key, reverse=o[0] == "-")
            else:
                ch = gen.pick(rng, [None, "freq", "-freq"])
                if c.Nspws > 1:
                    c.reorder_freqs(spw_order=rng.permutation(c.Nspws) if o == "perm" else o, channel_order=ch)
                    ids = list(dict.fromkeys(c.flex_spw_id_array.tolist()))
                    key = ids if "number" in o else [float(np.mean(c.freq_array[c.flex_spw_id_array == i])) for i in ids]
                    want = sorted(key, reverse=o[0] == "-")
                else:
                    o, key = "perm", []
                    c.reorder_freqs(channel_order=ch)
                if ch:
                    for i in np.unique(c.flex_spw_id_array):
                        f = c.freq_array[c.flex_spw_id_array == i]
                        ctx.check(np.all(np.diff(f) > 0) if ch == "freq" else np.all(np.diff(f) < 0), f"channels not in order {ch}: {f}")
        elif op == "time":
            o = gen.pick(rng, ["time", "-time", "perm"])
            c.reorder_times(rng.permutation(c.Ntimes) if o == "perm" else o)
            key = cc.tkeys(c)
            want = sorted(key, reverse=o[0] == "-")
        else:
            o = gen.pick(rng, ["number", "-number", "name", "-name", "perm"] if c.flex_jones_array is None else ["number", "-number", "perm"])
            c.reorder_jones(rng.permutation(c.Njones) if o == "perm" else o)
            from pyuvdata import utils as uvu

            key = cc.jkeys(c) if "name" not in o else uvu.jnum2str(c.jones_array, x_orientation=c.telescope.x_orientation)
            want = sorted(key, reverse=o[0] == "-")
        hist.append((op, o))
        _same(ctx, f"after {hist}", w, c)
        if o != "perm":
            ctx.check(list(key) == list(want), f"after {hist} the axis is {key}, not {want}")
        ctx.ev("reordered")
        c.check()
    ctx.case("reorder", *cc.describe(w), hist)


def to_gain(ctx):
    rng = ctx.rng
    c = _make(ctx, cal_type="delay", wide=True, nspw=1)
    n = int(rng.integers(1, 7))
    f = np.sort(rng.uniform(c.freq_range[0, 0], c.freq_range[0, 1], n))
    f = f if rng.integers(2) else f[::-1].copy()
    w = np.full(n, 1e4)
    conv = gen.pick(rng, [None, "minus", "plus"])
    b = copy.deepcopy(c)
    out = rng.integers(5) == 0
    if out:
        g = f.copy()
        g[0] = c.freq_range[0, 1] + 1e6
        s = canon.snap(c)
        ctx.raises(ValueError, lambda: c.convert_to_gain(freq_array=g, channel_width=w), "conversion outside of the frequency range")
        ctx.check(not canon.diff(s, c, exact=True), "a refused conversion changed the object")
    c.convert_to_gain(freq_array=f, channel_width=w, **({} if conv is None else {"delay_convention": conv}))
    ctx.case("to_gain", n, conv, *cc.describe(b))
    sgn = 1 if conv == "plus" else -1
    ctx.check(c.cal_type == "gain" and c.delay_array is None and not c.wide_band, "not a gain object after convert_to_gain")
    for i in range(n):
        want = np.exp(sgn * 2j * np.pi * b.delay_array[:, 0] * f[i])
        ctx.check(np.abs(c.gain_array[:, i] - want).max() < 1e-6, f"gain of channel {i} is not the phase of the delay")
        ctx.check(np.array_equal(c.flag_array[:, i], b.flag_array[:, 0]), "flags changed")
        if b.quality_array is not None:
            ctx.check(np.array_equal(c.quality_array[:, i], b.quality_array[:, 0]), "qualities changed")
        if b.total_quality_array is not None:
            ctx.check(np.array_equal(c.total_quality_array[i], b.total_quality_array[0]), "total qualities changed")
    ctx.check(np.array_equal(c.freq_array, f) and np.array_equal(c.channel_width, w) and c.Nfreqs == n, "frequencies are not the requested ones")
    ctx.check(np.all(c.flex_spw_id_array == b.spw_array[0]) and np.array_equal(c.spw_array, b.spw_array), "window id changed")
    d = cc.mdiff(cc.tmeta(b), cc.tmeta(c))
    ctx.check(d is None and np.array_equal(b.ant_array, c.ant_array) and np.array_equal(b.jones_array, c.jones_array), "axes changed")
    c.check()
    ctx.ev("to_gain")


def keyed(ctx):
    rng = ctx.rng
    c = _make(ctx)
    from pyuvdata import utils as uvu

    data = c.gain_array if c.cal_type == "gain" else c.delay_array
    a = int(rng.choice(c.ant_array))
    ai = c.ant_array.tolist().index(a)
    ji = int(rng.integers(c.Njones))
    j = int(c.jones_array[ji])
    jk = gen.pick(rng, [None, j, uvu.jnum2str(j), uvu.jnum2str(j, x_orientation=c.telescope.x_orientation)])
    sq = bool(rng.integers(2))
    ctx.case("keyed", *cc.describe(c), jk, sq)
    for f, v in (("get_gains", data), ("get_flags", c.flag_array), ("get_quality", c.quality_array)):
        if v is None or (f == "get_gains" and c.cal_type != "gain"):
            continue
        g = getattr(c, f)(a, jk, squeeze_pol=sq) if rng.integers(2) or jk is None else getattr(c, f)((a, jk), squeeze_pol=sq)
        w = v[ai] if jk is None else v[ai][:, :, [ji]]
        if (sq or jk is not None) and w.shape[-1] == 1:
            w = w[..., 0]
        ctx.check(g.shape == w.shape and np.array_equal(g, w), lambda: f"{f}({a}, {jk}, squeeze_pol={sq}) is not the solution of that antenna")
        ctx.ev("keyed")
    ctx.check(c._has_key(antnum=a, jpol=jk) if hasattr(c, "_has_key") else c._key_exists(antnum=a, jpol=jk), "existing key reported absent")
    absent = int(max(c.ant_array)) + 1
    ctx.raises((ValueError, KeyError), lambda: c.get_flags(absent), "flags of an absent antenna")
    d = c.get_time_array()
    ctx.check(np.allclose(d, c.time_array if c.time_range is None else c.time_range.mean(1), atol=1e-9, rtol=0), "get_time_array is wrong")


SCENARIOS = [
    Scenario("select", select, 500, 10000),
    Scenario("add", add, 350, 7000),
    Scenario("partial", partial, 250, 5000),
    Scenario("concat", concat, 300, 6000),
    Scenario("reorder", reorder, 250, 5000),
    Scenario("to_gain", to_gain, 100, 1500),
    Scenario("keyed", keyed, 150, 2000),
]
