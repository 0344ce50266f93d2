"""C08 Combining objects loses, duplicates and mislabels nothing."""
import copy

import numpy as np

from pyuvdata import UVData
from vmon import canon, gen
from vmon.core import Scenario, Skip
from vmon.props import common

RULE = (
    "a random observation with uniquely tagged samples is cut into pieces (along one axis, along two axes as blocks, "
    "or with blocks missing), every piece is reordered on its own, and the pieces are recombined in random order with "
    "+, += or fast_concat; the sample ledger of the result is compared with the whole; non-trivial = distinct (object, cut, order)"
)
REQUIRED = ["cut_blt", "cut_freq", "cut_pol", "cut_spw", "cut_block", "missing_block", "combined_add", "combined_iadd",
            "combined_concat", "overlap_refused", "mismatch_refused", "overwrote_invalid", "renumbered_catalog", "metadata_only",
            "new_sources", "partial_overlap_blts", "with_scan_numbers", "with_eq_coeffs", "concat_refused",
            "concat_many_freq", "concat_many_blt", "concat_many_polarization"]

BLT = canon.BLT1 + ["phase_center_id_array"]


def ledger(uv):
    return canon.ledger(uv)


def _renumber(ctx, uv):
    """give the phase centers of a piece other ids (as another file would)."""
    old = list(uv.phase_center_catalog)
    new = [int(v) for v in ctx.rng.choice(np.arange(60), len(old), replace=False)]
    m = dict(zip(old, new))
    uv.phase_center_catalog = {m[k]: copy.deepcopy(v) for k, v in uv.phase_center_catalog.items()}
    uv.phase_center_id_array = np.array([m[int(k)] for k in uv.phase_center_id_array])
    ctx.ev("renumbered_catalog")


def _shuffle_piece(ctx, p, axes):
    rng = ctx.rng
    if "blt" in axes and rng.integers(2):
        p.reorder_blts(order=rng.permutation(p.Nblts))
    if "pol" in axes and rng.integers(2) and p.Npols > 1:
        p.reorder_pols(order=rng.permutation(p.Npols))
    if "freq" in axes and rng.integers(2) and p.Nfreqs > 1:
        # keep windows contiguous
        p.reorder_freqs(spw_order=gen.pick(rng, ["number", "-number"]) if p.Nspws > 1 else None,
                        channel_order=gen.pick(rng, ["freq", "-freq"]))


def _split(rng, n, k):
    """random partition of range(n) into k non-empty index sets."""
    k = min(k, n)
    lab = np.concatenate([np.arange(k), rng.integers(0, k, n - k)])
    lab = rng.permutation(lab) if rng.integers(2) else np.sort(lab)
    return [np.nonzero(lab == i)[0] for i in range(k)]


def _whole(ctx, **kw):
    rng = ctx.rng
    uv = gen.make_uvdata(rng, nbl=int(rng.integers(2, 7)), **kw)
    if uv.Nblts > 40:
        uv.select(blt_inds=np.arange(40))
    if rng.integers(4) == 0:
        uv.scan_number_array = rng.integers(1, 9, uv.Nblts)
        ctx.ev("with_scan_numbers")
    if rng.integers(4) == 0:
        uv.eq_coeffs = rng.uniform(0.5, 2, (uv.telescope.Nants, uv.Nfreqs))
        uv.eq_coeffs_convention = "multiply"
        ctx.ev("with_eq_coeffs")
    if rng.integers(3) == 0:
        common.random_ops(ctx, uv, n=1, allow=("select", "reorder", "freq", "pol"))
    return uv


def _sub(uv, b=None, f=None, p=None):
    k = {}
    if b is not None:
        k["blt_inds"] = b
    if f is not None:
        k["freq_chans"] = f
    out = uv.select(inplace=False, **k) if k else uv.copy()
    if p is not None:
        out.select(polarizations=[int(v) for v in uv.polarization_array[p]])
    return out


def _join(ctx, pieces, axis=None):
    """combine in random order and style."""
    rng = ctx.rng
    pieces = [pieces[i] for i in rng.permutation(len(pieces))]
    befores = [ledger(p) for p in pieces]
    hists = [p.history for p in pieces]
    style = gen.pick(rng, ["add", "iadd", "concat"] if axis else ["add", "iadd"])
    ctx.log("join", style, axis, [p.Nblts for p in pieces])
    ctx.ev("combined_" + style)
    if style == "concat":
        if rng.integers(2):
            r = pieces[0].fast_concat(pieces[1:], axis)
        else:
            r = pieces[0].copy()
            r.fast_concat(pieces[1:] if len(pieces) > 2 or rng.integers(2) else pieces[1], axis, inplace=True)
    elif style == "add":
        r = pieces[0]
        for q in pieces[1:]:
            r = r + q
    else:
        r = pieces[0].copy()
        for q in pieces[1:]:
            r += q
    for p, b in zip(pieces, befores):
        d = canon.dictdiff(b, ledger(p), exact=True)
        ctx.check(not d, lambda: f"operand changed by {style}: {d[:4]}")
    for h in hists:
        ctx.check(all(w in r.history for w in h.split(". ")[:1]), "history of an operand was lost")
    return r


def _compare(ctx, whole, r, what):
    common.sane(ctx, r, what)
    d = canon.dictdiff(ledger(whole), ledger(r), exact=True)
    ctx.check(not d, lambda: f"{what}: {d[:5]}")
    r.check()


def s_one_axis(ctx):
    rng = ctx.rng
    axis = gen.pick(rng, ["blt", "blt", "freq", "spw", "pol"])
    kw = {}
    if axis == "spw":
        kw["nspw"] = int(rng.integers(2, 4))
    if axis == "pol":
        kw["pols"] = gen.make_pols(rng, full=True)
    mo = rng.integers(8) == 0
    uv = _whole(ctx, metadata_only=bool(mo), **kw)
    if mo:
        ctx.ev("metadata_only")
    k = int(rng.integers(2, 5))
    if axis == "blt":
        if uv.Nblts < 2:
            raise Skip("one record")
        if rng.integers(3) == 0:
            t = np.unique(uv.time_array)
            cuts = [np.nonzero(np.isin(uv.time_array, t[i]))[0] for i in _split(rng, len(t), k)]
        else:
            cuts = _split(rng, uv.Nblts, k)
        pieces = [_sub(uv, b=c) for c in cuts]
        other_axes = ()
        for p in pieces:
            if rng.integers(3) == 0:
                _renumber(ctx, p)
    elif axis == "freq":
        if uv.Nfreqs < 2:
            raise Skip("one channel")
        cuts = _split(rng, uv.Nfreqs, k)
        pieces = [_sub(uv, f=c) for c in cuts]
        other_axes = ()
    elif axis == "spw":
        if uv.Nspws < 2:
            raise Skip("one window")
        pieces = [_sub(uv, f=np.nonzero(uv.flex_spw_id_array == s)[0]) for s in uv.spw_array]
    else:
        cuts = _split(rng, uv.Npols, k)
        pieces = [_sub(uv, p=c) for c in cuts]
    if len(pieces) < 2:
        raise Skip("one piece")
    ctx.ev("cut_" + axis)
    ctx.case(common.describe_uv(uv) if not mo else f"meta {uv.Nblts} {uv.Nfreqs} {uv.freq_array[0]} {uv.time_array[0]}",
             axis, [p.Nblts for p in pieces], [p.Nfreqs for p in pieces])
    fast = {"blt": "blt", "freq": None, "spw": "freq", "pol": "polarization"}[axis]
    if fast == "blt" or rng.integers(2):
        # concatenation requires the other axes to be in the same order
        if axis == "blt":
            for p in pieces:
                if rng.integers(2):
                    p.reorder_blts(order=rng.permutation(p.Nblts))
                elif rng.integers(3) == 0:
                    p.reorder_blts(order=gen.pick(rng, ["time", "baseline", "bda"]))
        r = _join(ctx, pieces, fast)
    else:
        ax = {"blt": "freq pol", "freq": "blt pol freq", "spw": "blt pol freq", "pol": "blt pol freq"}[axis].split()
        for p in pieces:
            _shuffle_piece(ctx, p, ax)
        r = _join(ctx, pieces, None)
    _compare(ctx, uv, r, f"recombined along {axis}")


def s_concat(ctx):
    """three or more pieces put behind each other by fast_concat, with per-channel and per-record metadata all different."""
    rng = ctx.rng
    axis = gen.pick(rng, ["freq", "freq", "blt", "polarization"])
    kw = {"nspw": 1} if axis == "freq" else {}
    if axis == "polarization":
        kw["pols"] = gen.make_pols(rng, full=True)
    uv = gen.make_uvdata(rng, nbl=int(rng.integers(2, 6)), **kw)
    uv.channel_width = uv.channel_width * rng.permutation(np.linspace(0.5, 0.9, uv.Nfreqs))
    uv.integration_time = uv.integration_time * rng.permutation(np.linspace(0.5, 0.9, uv.Nblts))
    if rng.integers(2):
        uv.eq_coeffs = rng.uniform(0.5, 2, (uv.telescope.Nants, uv.Nfreqs))
        uv.eq_coeffs_convention = "multiply"
        ctx.ev("with_eq_coeffs")
    if rng.integers(2):
        uv.scan_number_array = rng.integers(1, 9, uv.Nblts)
        ctx.ev("with_scan_numbers")
    n = {"freq": uv.Nfreqs, "blt": uv.Nblts, "polarization": uv.Npols}[axis]
    k = int(rng.integers(3, 6))
    cuts = _split(rng, n, k)
    if len(cuts) < 3:
        raise Skip("fewer than three pieces")
    pieces = [_sub(uv, **{{"freq": "f", "blt": "b", "polarization": "p"}[axis]: c}) for c in cuts]
    if axis == "blt":
        for q in pieces:
            if rng.integers(3) == 0:
                _renumber(ctx, q)
            if rng.integers(2):
                q.reorder_blts(order=rng.permutation(q.Nblts))
    o = rng.permutation(len(pieces))
    pieces = [pieces[i] for i in o]
    befores = [ledger(q) for q in pieces]
    inplace = bool(rng.integers(2))
    ctx.log("fast_concat", axis, [c.tolist() for c in cuts], o.tolist(), inplace)
    ctx.case(common.describe_uv(uv), axis, [cuts[i].tolist() for i in o])
    ctx.ev("concat_many_" + axis)
    if inplace:
        r = pieces[0].copy()
        r.fast_concat(pieces[1:], axis, inplace=True)
    else:
        r = pieces[0].fast_concat(pieces[1:], axis)
    for q, b in zip(pieces, befores):
        d = canon.dictdiff(b, ledger(q), exact=True)
        ctx.check(not d, lambda: f"operand changed by fast_concat: {d[:4]}")
    _compare(ctx, uv, r, f"concatenated along {axis}")
    # the pieces follow each other in the order given
    if axis == "freq":
        want = np.concatenate([q.freq_array for q in pieces])
        ctx.check(np.array_equal(r.freq_array, want), "the channels do not follow the order of the pieces")
    elif axis == "polarization":
        want = np.concatenate([q.polarization_array for q in pieces])
        ctx.check(np.array_equal(r.polarization_array, want), "the polarizations do not follow the order of the pieces")
    else:
        want = np.concatenate([q.time_array for q in pieces])
        ctx.check(np.array_equal(r.time_array, want), "the records do not follow the order of the pieces")


def s_blocks(ctx):
    """two-axis blocks, each combined in turn, possibly with blocks missing."""
    rng = ctx.rng
    uv = _whole(ctx, pols=gen.make_pols(rng, full=True))
    axes = gen.pick(rng, [("blt", "freq"), ("blt", "pol"), ("freq", "pol")])
    n = {"blt": uv.Nblts, "freq": uv.Nfreqs, "pol": uv.Npols}
    if any(n[a] < 2 for a in axes):
        raise Skip("too small")
    c1, c2 = _split(rng, n[axes[0]], 2), _split(rng, n[axes[1]], 2)
    blocks = [(i, j) for i in range(2) for j in range(2)]
    drop = None
    if rng.integers(2):
        drop = blocks[int(rng.integers(4))]
    key = {"blt": "b", "freq": "f", "pol": "p"}
    pieces = []
    for i, j in blocks:
        if (i, j) == drop:
            continue
        p = _sub(uv, **{key[axes[0]]: c1[i], key[axes[1]]: c2[j]})
        _shuffle_piece(ctx, p, ["blt", "freq", "pol"])
        pieces.append(p)
    ctx.ev("cut_block")
    ctx.case(common.describe_uv(uv), axes, drop, [x.tolist() for x in c1], [x.tolist() for x in c2])
    exp = uv.copy()
    if drop is not None:
        ctx.ev("missing_block")
        ix = {"blt": np.arange(uv.Nblts), "freq": np.arange(uv.Nfreqs), "pol": np.arange(uv.Npols)}
        ix[axes[0]] = c1[drop[0]]
        ix[axes[1]] = c2[drop[1]]
        m = np.ix_(ix["blt"], ix["freq"], ix["pol"])
        exp.data_array[m] = 0
        exp.flag_array[m] = True
        exp.nsample_array[m] = 0
    befores = [ledger(p) for p in pieces]
    pieces = [pieces[i] for i in rng.permutation(len(pieces))]
    # combine pairs that share no block; a pair holding diagonal blocks leaves holes that a later piece
    # would overlap, so join along one axis first
    r = None
    if drop is None:
        r = _pairs(ctx, uv, axes, c1, c2, key)
    else:
        # three blocks: two sharing a cut of the first axis, then the third
        i = 1 - drop[0]
        row = [p for p in pieces if _is_row(uv, p, axes[0], c1[i])]
        oth = [p for p in pieces if p not in row]
        if len(row) != 2 or len(oth) != 1:
            raise Skip("rows not separable")
        a = row[0] + row[1]
        if rng.integers(2):
            r = a + oth[0]
        else:
            r = oth[0] + a
        if axes[0] == "blt":
            ctx.ev("partial_overlap_blts")
    _compare(ctx, exp, r, f"recombined blocks {axes} without {drop}")


def _is_row(uv, p, axis, idx):
    if axis == "blt":
        k = set(zip(uv.time_array[idx], uv.ant_1_array[idx], uv.ant_2_array[idx]))
        return set(zip(p.time_array, p.ant_1_array, p.ant_2_array)) == k
    k = set(zip(uv.freq_array[idx], uv.flex_spw_id_array[idx]))
    return set(zip(p.freq_array, p.flex_spw_id_array)) == k


def _pairs(ctx, uv, axes, c1, c2, key):
    rng = ctx.rng
    P = {}
    for i in range(2):
        for j in range(2):
            p = _sub(uv, **{key[axes[0]]: c1[i], key[axes[1]]: c2[j]})
            _shuffle_piece(ctx, p, ["blt", "freq", "pol"])
            P[i, j] = p
    if rng.integers(2):
        a, b = P[0, 0] + P[0, 1], P[1, 1] + P[1, 0]
    else:
        a, b = P[1, 0] + P[0, 0], P[0, 1] + P[1, 1]
    return a + b if rng.integers(2) else b + a


def s_partial(ctx):
    """two pieces that share some records but no channels (or polarizations): the union is the
    result, with the combinations neither has flagged."""
    rng = ctx.rng
    axis = gen.pick(rng, ["freq", "pol"])
    uv = _whole(ctx, pols=gen.make_pols(rng, full=True))
    n = uv.Nfreqs if axis == "freq" else uv.Npols
    if n < 2 or uv.Nblts < 3:
        raise Skip("too small")
    c = _split(rng, n, 2)
    b1 = np.nonzero(rng.random(uv.Nblts) < 0.6)[0]
    b2 = np.nonzero(rng.random(uv.Nblts) < 0.6)[0]
    if len(b1) == 0 or len(b2) == 0:
        raise Skip("empty")
    kk = "f" if axis == "freq" else "p"
    p1, p2 = _sub(uv, b=b1, **{kk: c[0]}), _sub(uv, b=b2, **{kk: c[1]})
    for p in (p1, p2):
        _shuffle_piece(ctx, p, ["blt", "freq", "pol"])
    if set(b1) & set(b2) and set(b2) - set(b1):
        ctx.ev("partial_overlap_blts")
    exp = uv.copy()
    have = np.zeros(uv.data_array.shape, bool)
    for b, cc in ((b1, c[0]), (b2, c[1])):
        ff = cc if axis == "freq" else np.arange(uv.Nfreqs)
        pp = cc if axis == "pol" else np.arange(uv.Npols)
        have[np.ix_(b, ff, pp)] = True
    exp.data_array[~have] = 0
    exp.flag_array[~have] = True
    exp.nsample_array[~have] = 0
    exp.select(blt_inds=np.union1d(b1, b2))
    ctx.case(common.describe_uv(uv), axis, b1, b2)
    r = p1 + p2 if rng.integers(2) else p2 + p1
    _compare(ctx, exp, r, f"union of overlapping baseline-times, split {axis}")


def s_sources(ctx):
    """objects observed on different sources and times, same telescope, clashing ids or names."""
    rng = ctx.rng
    tel = gen.make_telescope(rng)
    pols = gen.make_pols(rng)
    uv1 = gen.make_uvdata(rng, tel=tel, pols=pols, nspw=1, nbl=4, vis_units="Jy", extras=False)
    t2 = np.unique(uv1.time_array).max() + 0.001 + np.arange(int(rng.integers(1, 4))) * 2e-4
    uv2 = gen.make_uvdata(rng, tel=copy.deepcopy(tel), pols=pols, nspw=1, nbl=4, times=t2, vis_units="Jy", extras=False)
    uv2.freq_array, uv2.channel_width = uv1.freq_array.copy(), uv1.channel_width.copy()
    uv2.flex_spw_id_array, uv2.spw_array = uv1.flex_spw_id_array.copy(), uv1.spw_array.copy()
    nf = uv1.Nfreqs
    sh = (uv2.Nblts, nf, uv2.Npols)
    uv2.Nfreqs = nf
    uv2.data_array = gen.unique_complex(rng, sh, uv1.data_array.dtype)
    m = uv2.ant_1_array == uv2.ant_2_array
    uv2.data_array[m] = uv2.data_array[m].real
    uv2.flag_array = rng.random(sh) < 0.2
    uv2.nsample_array = (rng.integers(1, 9, sh) / 4.0).astype(np.float32)
    uv2.check()
    ctx.ev("new_sources")
    ctx.case(common.describe_uv(uv1), common.describe_uv(uv2))
    L1, L2 = ledger(uv1), ledger(uv2)
    how = gen.pick(rng, ["add", "concat"])
    a, b = (uv1, uv2) if rng.integers(2) else (uv2, uv1)
    if how == "concat" and np.array_equal(a.polarization_array, b.polarization_array):
        r = a.fast_concat(b, "blt")
    else:
        r = a + b
    common.sane(ctx, r, "combined sources")
    rec = {}
    for L in (L1, L2):
        for i in range(len(L["time_array"])):
            rec[(round(L["time_array"][i] * 86400 * 100), L["ant_1_array"][i], L["ant_2_array"][i])] = (L, i)
    L = ledger(r)
    ctx.check(len(L["time_array"]) == len(rec), "number of records")
    for i in range(len(L["time_array"])):
        k = (round(L["time_array"][i] * 86400 * 100), L["ant_1_array"][i], L["ant_2_array"][i])
        ctx.check(k in rec, "unknown record")
        S, j = rec[k]
        for f in ("data_array", "flag_array", "nsample_array", "uvw_array", "phase_center", "phase_center_name",
                  "phase_center_app_ra", "phase_center_app_dec", "lst_array", "integration_time"):
            e = canon.valdiff(S[f][j], L[f][i], path=f)
            ctx.check(not e, lambda: f"record {k}: {e}")
    ctx.check(not canon.dictdiff(L1, ledger(uv1), exact=True), "first operand changed")
    ctx.check(not canon.dictdiff(L2, ledger(uv2), exact=True), "second operand changed")


def s_refuse(ctx):
    rng = ctx.rng
    uv = _whole(ctx)
    kind = gen.pick(rng, ["overlap", "overlap", "invalid_this", "invalid_other", "units", "telescope", "uvw", "width", "type"])
    if uv.Nblts < 3:
        raise Skip("small")
    b1 = np.sort(rng.choice(uv.Nblts, int(rng.integers(1, uv.Nblts)), replace=False))
    b2 = np.union1d(np.setdiff1d(np.arange(uv.Nblts), b1), rng.choice(b1, int(rng.integers(1, len(b1) + 1)), replace=False))
    ctx.case(common.describe_uv(uv), kind, b1, b2)
    ov = np.intersect1d(b1, b2)
    p1, p2 = _sub(uv, b=b1), _sub(uv, b=b2)
    exc = ValueError
    if kind == "overlap":
        # at least one sample of the shared region is neither flagged nor zero in each
        p1.flag_array[:] = rng.random(p1.flag_array.shape) < 0.9
        p2.flag_array[:] = rng.random(p2.flag_array.shape) < 0.9
        if rng.integers(2):
            # all flagged but not zero: still valid data
            p1.flag_array[:] = True
    elif kind == "invalid_this":
        s = np.isin(b1, ov)
        p1.data_array[s] = 0
        p1.flag_array[s] = True
        exp = uv.copy()
        L = ledger(exp)
        _shuffle_piece(ctx, p1, ["blt", "freq", "pol"])
        r = p1 + p2
        ctx.ev("overwrote_invalid")
        d = canon.dictdiff(L, ledger(r), exact=True)
        ctx.check(not d, lambda: f"overwriting flagged zero data: {d[:4]}")
        return
    elif kind == "invalid_other":
        s = np.isin(b2, ov)
        p2.data_array[s] = 0
        p2.flag_array[s] = True
        # the first object's data has to be valid for the refusal
        i = int(np.nonzero(np.isin(b1, ov))[0][0])
        p1.flag_array[i, 0, 0] = False
    else:
        b2 = np.setdiff1d(np.arange(uv.Nblts), b1)
        if len(b2) == 0:
            raise Skip("nothing left")
        p1, p2 = _sub(uv, b=b1), _sub(uv, b=b2)
        if kind == "units":
            p2.vis_units = "Jy" if uv.vis_units != "Jy" else "K str"
        elif kind == "telescope":
            w = gen.pick(rng, ["pos", "name", "num"])
            if w == "pos":
                p2.telescope.antenna_positions = p2.telescope.antenna_positions + np.array([0, 0, 0.5])
            elif w == "name":
                p2.telescope.name = "other"
            else:
                from astropy.coordinates import EarthLocation
                loc = p2.telescope.location
                from astropy import units as un
                p2.telescope.location = EarthLocation.from_geocentric(loc.x, loc.y, loc.z + 5 * un.m)
                p2.set_lsts_from_time_array()
        elif kind in ("uvw", "width"):
            if uv.Nfreqs < 2 or uv.Npols < 2:
                raise Skip("small")
            ax = {"uvw": "freq", "width": "pol"}[kind]
            c = _split(rng, uv.Nfreqs if ax == "freq" else uv.Npols, 2)
            p1, p2 = [_sub(uv, **{"f" if ax == "freq" else "p": x}) for x in c]
            if kind == "uvw":
                w = gen.pick(rng, ["uvw_array", "integration_time", "phase_center_id"])
                i = int(rng.integers(p2.Nblts))
                if w == "uvw_array":
                    if p2.ant_1_array[i] == p2.ant_2_array[i]:
                        raise Skip("auto")
                    p2.uvw_array[i] += 0.4
                elif w == "integration_time":
                    p2.integration_time[i] *= 2
                else:
                    if len(p2.phase_center_catalog) < 2:
                        raise Skip("one source")
                    o = [k for k in p2.phase_center_catalog if k != p2.phase_center_id_array[i]]
                    p2.phase_center_id_array[i] = o[0]
            else:
                p2.channel_width[int(rng.integers(p2.Nfreqs))] *= 1.5
        else:
            p2 = "not an object"
            exc = (ValueError, TypeError, AttributeError)
    s1 = canon.snap(p1)
    s2 = canon.snap(p2) if not isinstance(p2, str) else None
    how = gen.pick(rng, ["add", "iadd"])

    def call():
        if how == "add":
            p1.__add__(p2)
        else:
            p1.__iadd__(p2)

    if kind in ("units", "telescope", "uvw", "width") and rng.integers(3) == 0:
        ax = {"units": "blt", "telescope": "blt", "uvw": "freq", "width": "polarization"}[kind]
        L1, L2 = ledger(p1), ledger(p2)
        ctx.raises(ValueError, lambda: p1.fast_concat(p2, ax, inplace=bool(rng.integers(2))), f"concatenating with {kind}")
        ctx.ev("concat_refused")
        ctx.check(not canon.dictdiff(L1, ledger(p1), exact=True), "refused concatenation changed the first object")
        ctx.check(not canon.dictdiff(L2, ledger(p2), exact=True), "refused concatenation changed the second object")
        return
    ctx.raises(exc, call, f"combining with {kind}")
    ctx.ev("overlap_refused" if kind in ("overlap", "invalid_other") else "mismatch_refused")
    d = canon.diff(s1, p1, exact=True)
    ctx.check(not d, lambda: f"refused combination changed the first object: {d[:3]}")
    if s2 is not None:
        d = canon.diff(s2, p2, exact=True)
        ctx.check(not d, lambda: f"refused combination changed the second object: {d[:3]}")


SCENARIOS = [
    Scenario("one_axis", s_one_axis, 650, 12000),
    Scenario("concat", s_concat, 200, 3000),
    Scenario("blocks", s_blocks, 250, 4000),
    Scenario("partial", s_partial, 200, 4000),
    Scenario("sources", s_sources, 130, 2500),
    Scenario("refuse", s_refuse, 300, 4000),
]
