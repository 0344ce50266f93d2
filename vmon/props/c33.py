"""C33 Beam selection and combination."""
import numpy as np

from pyuvdata import UVBeam
from vmon import canon, gen
from vmon.core import Scenario, Skip
from vmon.props import beamcommon as bc
from vmon.props import common

RULE = (
    "random beams (efield/power, simple/phased array, regular/HEALPix, any axis order) are selected along every axis in every spelling and cut "
    "into pieces that are added in any order, in place or not; values are looked up by (vector, feed/pol, frequency, pixel); "
    "non-trivial = distinct (beam, request)"
)
REQUIRED = ["select", "sel_freq", "sel_axis", "sel_pixels", "sel_feeds", "sel_pols", "sel_polstr", "pols_reordered", "unsorted_request", "multi_select", "inplace", "out_of_place",
            "select_refused", "add_freq", "add_axis", "add_pixel", "add_pol", "add_feed", "add_inplace", "overlap_refused", "mismatch_refused", "corner_pad", "phased", "optional", "healpix",
            "three_parts", "shuffled_other", "file_select_chain"]


def _mk(ctx, **k):
    b = gen.make_beam(ctx.rng, even_freq=bool(ctx.rng.integers(2)), **k)
    if b.antenna_type == "phased_array":
        ctx.ev("phased")
    if b.loss_array is not None:
        ctx.ev("optional")
    if b.pixel_coordinate_system == "healpix":
        ctx.ev("healpix")
    return b


def _sub(rng, n):
    k = int(rng.integers(1, n + 1))
    return [int(v) for v in rng.permutation(n)[:k]]


def _request(ctx, b):
    """random selection: (kwargs, take-kwargs)"""
    rng = ctx.rng
    kw, tk = {}, {}
    if rng.integers(2):
        i = _sub(rng, b.Nfreqs)
        m = int(rng.integers(3))
        if m == 0:
            kw["freq_chans"] = i if rng.integers(2) else np.array(i)
        elif m == 1:
            kw["frequencies"] = b.freq_array[i] if rng.integers(2) else list(b.freq_array[i])
        else:
            h = int(rng.integers(1, len(i) + 1))
            kw["frequencies"], kw["freq_chans"] = b.freq_array[i[:h]], i[h:] or i[:1]
        tk["fi"] = sorted(i)
        ctx.ev("sel_freq")
        if i != sorted(i):
            ctx.ev("unsorted_request")
    if b.pixel_coordinate_system == "healpix":
        if rng.integers(2):
            i = _sub(rng, b.Npixels)
            kw["pixels"] = b.pixel_array[i] if rng.integers(2) else [int(v) for v in b.pixel_array[i]]
            tk["px"] = sorted(i)
            ctx.ev("sel_pixels")
    else:
        for a, n, t in (("axis1_inds", b.Naxes1, "a1"), ("axis2_inds", b.Naxes2, "a2")):
            if rng.integers(2):
                i = _sub(rng, n)
                kw[a] = i if rng.integers(2) else np.array(i)
                tk[t] = sorted(i)
                ctx.ev("sel_axis")
    if rng.integers(2):
        if b.beam_type == "efield":
            i = _sub(rng, b.Nfeeds)
            fe = [str(b.feed_array[j]) for j in i]
            if b.x_orientation is not None and rng.integers(3) == 0 and fe[0] in "xy":
                m = {"east": {"x": "e", "y": "n"}, "north": {"x": "n", "y": "e"}}[b.x_orientation]
                fe = [m[f] for f in fe]
            kw["feeds"] = fe if rng.integers(3) else [f.upper() for f in fe]
            tk["pi"] = sorted(i)
            ctx.ev("sel_feeds")
        else:
            i = _sub(rng, b.Npols)
            ps = [int(b.polarization_array[j]) for j in i]
            m = int(rng.integers(3))
            if m == 0:
                names = {1: "pI", 2: "pQ", 3: "pU", 4: "pV", -1: "rr", -2: "ll", -3: "rl", -4: "lr", -5: "xx", -6: "yy", -7: "xy", -8: "yx"}
                kw["polarizations"] = [names[p] for p in ps]
                ctx.ev("sel_polstr")
            else:
                kw["polarizations"] = ps if m == 1 else np.array(ps)
            tk["pi"] = sorted(i)
            ctx.ev("sel_pols")
            if i != sorted(i):
                ctx.ev("pols_reordered")
    return kw, tk


IGN = {"history", "filename"}


def select(ctx):
    rng = ctx.rng
    b = _mk(ctx)
    hist = []
    for _ in range(int(rng.integers(1, 3))):
        kw, tk = _request(ctx, b)
        if not kw:
            raise Skip("nothing requested")
        hist.append({k: list(v) for k, v in kw.items()})
        want = bc.take(canon.snap(b), **tk)
        before = canon.snap(b)
        if rng.integers(2):
            r = b.select(inplace=False, **kw)
            ctx.check(not canon.diff(before, b, exact=True), f"select(inplace=False, {hist[-1]}) changed the original")
            ctx.ev("out_of_place")
        else:
            r = b
            r.select(**kw)
            ctx.ev("inplace")
        d = canon.diff(want, r, ignore=IGN, exact=True)
        ctx.check(not d, lambda: f"select({hist[-1]}): {d[:3]}")
        common.hist_kept(ctx, before["history"], r.history, "select")
        r.check()
        ctx.ev("select")
        if len(kw) > 1:
            ctx.ev("multi_select")
        if b is not r and len(hist) == 1:
            ctx.ev("file_select_chain")
        b = r
    ctx.case(bc.describe(b), hist)


def refused(ctx):
    rng = ctx.rng
    b = _mk(ctx)
    hp = b.pixel_coordinate_system == "healpix"
    kw = dict([[("frequencies", [1.0])], [("freq_chans", [b.Nfreqs])]][int(rng.integers(2))])
    k = int(rng.integers(4))
    if k == 1:
        kw = {"axis1_inds": [0]} if hp else {"pixels": [0]}
    elif k == 2:
        kw = {"polarizations": [-5]} if b.beam_type == "efield" else {"feeds": ["x"]}
    elif k == 3 and hp:
        kw = {"pixels": [12 * b.nside**2]}
    elif k == 3:
        kw = {"axis1_inds": [b.Naxes1]} if rng.integers(2) else {"axis2_inds": [0, -1]}
    r = b.copy()
    ctx.raises((ValueError, IndexError), lambda: r.select(**kw), f"select({kw})")
    d = canon.diff(b, r, exact=True)
    ctx.check(not d, lambda: f"the refused select({kw}) changed {d[:2]}")
    ctx.ev("select_refused")
    ctx.case(bc.describe(b), kw)


def _cut(rng, n, parts):
    o = rng.permutation(n)
    c = np.sort(rng.choice(np.arange(1, n), parts - 1, replace=False)) if n > 1 else []
    return [np.sort(x) for x in np.split(o, c)]


def _reorder(rng, b):
    """the same beam with its axes in another order, by our own indexing"""
    s = canon.snap(b)
    kw = {}
    if rng.integers(2):
        kw["fi"] = rng.permutation(b.Nfreqs)
    if b.pixel_coordinate_system == "healpix":
        if rng.integers(2):
            kw["px"] = rng.permutation(b.Npixels)
    if b.antenna_type == "simple" or b.beam_type == "power":
        n = b.Npols if b.beam_type == "power" else b.Nfeeds
        if rng.integers(2):
            kw["pi"] = rng.permutation(n)
    s = bc.take(s, **kw)
    r = b.copy()
    for k in ("freq_array", "bandpass_array", "receiver_temperature_array", "loss_array", "mismatch_array", "s_parameters", "coupling_matrix", "data_array", "pixel_array",
              "basis_vector_array", "polarization_array", "feed_array"):
        if s[k] is not None:
            setattr(r, k, s[k])
    r.check()
    return r, bool(kw)


def add(ctx):
    rng = ctx.rng
    b = _mk(ctx)
    axes = ["freq"] if b.Nfreqs > 1 else []
    if b.pixel_coordinate_system == "healpix":
        axes += ["pixel"]
    else:
        axes += ["a1", "a2"]
    npol = b.Npols if b.beam_type == "power" else b.Nfeeds
    if npol > 1 and b.antenna_type == "simple":
        axes.append("pol")
    ax = gen.pick(rng, axes)
    n = {"freq": b.Nfreqs, "pixel": b.Npixels, "a1": b.Naxes1, "a2": b.Naxes2, "pol": npol}[ax]
    if n < 2:
        raise Skip("one element")
    np_ = int(rng.integers(2, min(n, 3) + 1))
    cuts = _cut(rng, n, np_)
    parts = []
    sh = False
    for c in cuts:
        if ax == "freq":
            p = b.select(freq_chans=c, inplace=False)
        elif ax == "pixel":
            p = b.select(pixels=b.pixel_array[c], inplace=False)
        elif ax in ("a1", "a2"):
            p = b.select(**{"axis1_inds" if ax == "a1" else "axis2_inds": c}, inplace=False)
        elif b.beam_type == "power":
            p = b.select(polarizations=[int(v) for v in b.polarization_array[c]], inplace=False)
        else:
            p = b.select(feeds=[str(v) for v in b.feed_array[c]], inplace=False)
        p, did = _reorder(rng, p)
        sh |= did
        parts.append(p)
    if sh:
        ctx.ev("shuffled_other")
    snaps = [canon.snap(p) for p in parts]
    what = f"adding {np_} parts cut along {ax}"
    r = parts[0]
    if rng.integers(2):
        r = r.copy()
        for p in parts[1:]:
            r += p
        ctx.ev("add_inplace")
    else:
        for p in parts[1:]:
            r = r + p
    for p, s in zip(parts, snaps):
        ctx.check(not canon.diff(s, p, exact=True), f"{what} changed an operand")
    ctx.check(common_table(ctx, b, r, what), "")
    r.check()
    d = canon.diff(b, r, only={"telescope_name", "feed_name", "feed_version", "model_name", "model_version", "x_orientation", "beam_type", "antenna_type", "data_normalization", "Naxes_vec",
                               "Ncomponents_vec", "pixel_coordinate_system", "nside", "ordering", "Nelements", "delay_array", "gain_array", "element_location_array", "reference_impedance",
                               "extra_keywords", "Nfreqs", "Npols", "Nfeeds", "Naxes1", "Naxes2", "Npixels"}, exact=True)
    ctx.check(not d, lambda: f"{what}: {d[:3]}")
    common.hist_kept(ctx, snaps[0]["history"], r.history, what)
    ctx.ev({"freq": "add_freq", "pixel": "add_pixel", "a1": "add_axis", "a2": "add_axis", "pol": "add_pol" if b.beam_type == "power" else "add_feed"}[ax])
    if np_ > 2:
        ctx.ev("three_parts")
    ctx.case(bc.describe(b), what, [c.tolist() for c in cuts])


def common_table(ctx, want, got, what):
    t1, t2 = bc.table(want), bc.table(got)
    ctx.check(set(t1) == set(t2), lambda: f"{what}: lost {set(t1) ^ set(t2)}")
    for k in t1:
        if t1[k] is None and t2[k] is None:
            continue
        d = canon.valdiff(t1[k], t2[k], path=k)
        ctx.check(d is None, lambda: f"{what}: {d}")
    return True


def corner(ctx):
    """two pieces that differ along two axes: the four corners are the pieces and padding"""
    rng = ctx.rng
    b = _mk(ctx, phased=False, nfreq=int(rng.integers(2, 5)), opt=False)
    f = _cut(rng, b.Nfreqs, 2)
    hp = b.pixel_coordinate_system == "healpix"
    n = b.Npixels if hp else b.Naxes1
    g = _cut(rng, n, 2)

    def piece(fi, gi):
        if hp:
            return b.select(freq_chans=fi, pixels=b.pixel_array[gi], inplace=False)
        return b.select(freq_chans=fi, axis1_inds=gi, inplace=False)

    p, q = piece(f[0], g[0]), piece(f[1], g[1])
    p, _ = _reorder(rng, p)
    q, _ = _reorder(rng, q)
    r = p + q
    t0, t = bc.table(b), bc.table(r)
    fo = np.argsort(b.freq_array, kind="stable")
    coord = b.pixel_array if hp else b.axis1_array
    go = np.argsort(coord, kind="stable")
    for k in ("labels", "freqs", "coord0", "bandpass_array", "bv"):
        if t0[k] is not None:
            d = canon.valdiff(t0[k], t[k], path=k)
            ctx.check(d is None, lambda: f"adding pieces that differ along two axes: {d}")
    inp = np.isin(fo, f[0])[:, None] == np.isin(go, g[0])[None, :]
    m = np.broadcast_to(inp[None, None, :, :] if hp else inp[None, None, :, None, :], t0["data"].shape)
    ctx.check(np.array_equal(t["data"][m], t0["data"][m]), "adding pieces that differ along two axes: values moved")
    ctx.check(not t["data"][~m].any(), "adding pieces that differ along two axes: padding is not zero")
    ctx.ev("corner_pad")
    ctx.case(bc.describe(b), [x.tolist() for x in f + g])


def overlap(ctx):
    rng = ctx.rng
    b = _mk(ctx)
    c = b.copy()
    k = int(rng.integers(4))
    if k == 0:
        c.telescope_name = "other"
    elif k == 1:
        c.model_version = "other"
    elif k == 2:
        c.data_normalization = "peak" if c.data_normalization == "physical" else "physical"
    if k < 3:
        c.freq_array = c.freq_array + 1e9
        ctx.ev("mismatch_refused")
    else:
        kw, _ = _request(ctx, b)
        c = b.select(inplace=False, **kw) if kw else c
        ctx.ev("overlap_refused")
        if rng.integers(2):
            c.loss_array = None
    s, s2 = canon.snap(b), canon.snap(c)
    if rng.integers(2):
        ctx.raises(ValueError, lambda: b + c, "adding overlapping or unlike beams")
    else:
        ctx.raises(ValueError, lambda: b.__iadd__(c), "adding overlapping or unlike beams in place")
    d = canon.diff(s, b, exact=True) + canon.diff(s2, c, exact=True)
    ctx.check(not d, lambda: f"a refused addition changed {d[:2]}")
    ctx.case(bc.describe(b), k)


SCENARIOS = [Scenario("select", select, 700, 6000), Scenario("refused", refused, 150, 1000), Scenario("add", add, 700, 6000), Scenario("corner", corner, 150, 1500), Scenario("overlap", overlap, 150, 1000)]
