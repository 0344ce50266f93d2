"""C30 Flag objects are stored, selected and combined faithfully."""
import copy

import numpy as np

from pyuvdata import UVFlag
from vmon import canon, gen
from vmon.core import Scenario, Skip
from vmon.props import flagcommon as fc

RULE = (
    "random flag and metric objects of each type (baseline, antenna, waterfall; several windows, shuffled times, collapsed polarizations, "
    "optional weights squares, extra keywords) with tagged values; written and read back (also as lists and into used objects), selected by random keyword "
    "combinations, cut into blocks and added again along every axis, antenna metadata sorted like another object; the "
    "(baseline/antenna, time, frequency, polarization) ledger of flags, metrics and weights is compared. non-trivial = distinct (object, operation)"
)
REQUIRED = ["roundtrip_baseline", "roundtrip_antenna", "roundtrip_waterfall", "roundtrip_collapsed", "roundtrip_wsq", "into_used", "read_list", "select_ant", "select_bls", "select_bl_reversed",
            "select_str", "select_times", "select_freq", "select_chan", "select_pol", "select_inds", "select_refused", "add_time", "add_baseline", "add_antenna", "add_frequency", "add_pol", "add_refused",
            "inplace", "sorted_like", "with_diameters", "multi_spw", "add_reverse_order", "old_spw_axis", "old_no_width", "old_scalar_width", "old_no_spw", "old_location", "old_name", "old_no_names"]
TOL = {"telescope.location": 1e-6}


def _check(ctx, what, want, want_meta, out, src, wtel=True, tol=0.0):
    bad = fc.counts(out)
    ctx.check(not bad, f"{what}: {bad[:2]}")
    d = fc.leddiff(want, fc.led(out), tol)
    ctx.check(d is None, lambda: f"{what}: {d}")
    m = fc.meta(out)
    ctx.check(m == want_meta, lambda: f"{what}: times/channels: {[(k, m.get(k), want_meta.get(k)) for k in set(m) | set(want_meta) if m.get(k) != want_meta.get(k)][:2]}")
    if wtel:
        ctx.check(fc.ants(out) == fc.ants(src), f"{what}: antenna metadata changed")
    d = canon.diff(src, out, only={"type", "mode", "label", "extra_keywords", "telescope.name", "telescope.location", "telescope.x_orientation", "telescope.instrument"}, tols=TOL)
    ctx.check(not d, lambda: f"{what}: {d[:2]}")


def roundtrip(ctx):
    rng = ctx.rng
    u = gen.make_uvflag(rng, collapsed=(rng.integers(4) == 0), infs=True)
    ctx.case(fc.describe(u))
    s = canon.snap(u)
    f = ctx.path("a.h5")
    u.write(f, **({} if rng.integers(3) else {"data_compression": None}))
    d = canon.diff(s, u, ignore={"history"}, exact=True)
    ctx.check(not d, lambda: f"writing changed the object: {d[:2]}")
    used = bool(rng.integers(2))
    if used:
        r = gen.make_uvflag(rng)
        r.read(f)
        ctx.ev("into_used")
    else:
        r = UVFlag(f)
    ctx.check(s["history"] in r.history, "history lost")
    d = canon.diff(s, r, ignore={"history", "filename"}, tols=TOL)
    ctx.check(not d, lambda: f"read back{' into a used object' if used else ''}: {d[:3]}")
    r.check()
    ctx.ev("roundtrip_" + u.type)
    if u.pol_collapsed:
        ctx.ev("roundtrip_collapsed")
    if u.weights_square_array is not None:
        ctx.ev("roundtrip_wsq")
    if u.Nspws > 1:
        ctx.ev("multi_spw")
    if u.telescope.antenna_diameters is not None:
        ctx.ev("with_diameters")


def select(ctx):
    rng = ctx.rng
    u = gen.make_uvflag(rng, infs=True)
    before = canon.snap(u)
    want = fc.led(u)
    kw = {}
    rowk, colk, polk = fc.rows(u), fc.cols(u), fc.pols(u)
    R, F, P = set(rowk), set(colk), set(polk)
    if u.type == "baseline":
        c = rng.integers(6)
        nums = np.union1d(u.ant_1_array, u.ant_2_array)
        if c == 0:
            k = rng.permutation(nums)[: int(rng.integers(1, len(nums) + 1))]
            kw["antenna_nums"] = k.tolist()
            R &= {r for r in rowk if r[1] in k and r[2] in k}
            ctx.ev("select_ant")
        elif c in (1, 2):
            prs = sorted({(r[1], r[2]) for r in rowk})
            k = [prs[i] for i in rng.permutation(len(prs))[: int(rng.integers(1, len(prs) + 1))]]
            R &= {r for r in rowk if (r[1], r[2]) in k or ((r[2], r[1]) in k and (r[1], r[2]) not in prs)}
            rev = [p[::-1] if (rng.integers(2) and p[::-1] not in prs) else p for p in k]
            if any(a != b for a, b in zip(rev, k)):
                ctx.ev("select_bl_reversed")
            kw["bls"] = rev
            ctx.ev("select_bls")
        elif c == 3:
            w = gen.pick(rng, ["auto", "cross"])
            kw["ant_str"] = w
            R &= {r for r in rowk if (r[1] == r[2]) == (w == "auto")}
            if not R:
                ctx.raises(ValueError, lambda: u.select(inplace=False, **kw), f"select {kw} with no such baselines")
                return
            ctx.ev("select_str")
    elif u.type == "antenna" and rng.integers(2):
        k = rng.permutation(u.ant_array)[: int(rng.integers(1, u.Nants_data + 1))]
        kw["antenna_nums"] = k.tolist()
        R &= {r for r in rowk if r[1] in k}
        ctx.ev("select_ant")
    tt = np.unique(u.time_array)
    if rng.integers(2):
        k = rng.permutation(tt)[: int(rng.integers(1, len(tt) + 1))]
        kw["times"] = k if rng.integers(2) else k.tolist()
        R &= {r for r in rowk if r[-1] in k}
        ctx.ev("select_times")
    if rng.integers(4) == 0:
        n = len(u.time_array)
        k = rng.permutation(n)[: int(rng.integers(1, n + 1))]
        kw["blt_inds"] = k.tolist()
        ts = set(u.time_array[k].tolist())
        R &= {rowk[i] for i in k} if u.type == "baseline" else {r for r in rowk if r[-1] in ts}
        ctx.ev("select_inds")
    if rng.integers(2):
        k = rng.permutation(u.Nfreqs)[: int(rng.integers(1, u.Nfreqs + 1))]
        if rng.integers(2):
            kw["freq_chans"] = k.tolist()
            ctx.ev("select_chan")
        else:
            kw["frequencies"] = u.freq_array[k]
            ctx.ev("select_freq")
        fr = set(u.freq_array[k].tolist())
        F &= {c for c in colk if c[1] in fr}
    if rng.integers(2) and "ant_str" not in kw:
        k = rng.permutation(len(polk))[: int(rng.integers(1, len(polk) + 1))]
        kw["polarizations"] = [polk[i] for i in k]
        P &= {polk[i] for i in k}
        ctx.ev("select_pol")
    if not kw:
        kw["freq_chans"] = list(range(u.Nfreqs))
    ctx.case(fc.describe(u), kw)
    if not R:
        ctx.raises(ValueError, lambda: u.select(inplace=False, **kw), f"select {kw} keeps nothing")
        ctx.ev("select_refused")
        return
    inplace = bool(rng.integers(2))
    o = copy.deepcopy(u) if inplace else u
    out = o.select(inplace=inplace, **kw)
    out = o if inplace else out
    d = canon.diff(before, u, exact=True)
    ctx.check(not d, lambda: f"original changed by select: {d[:2]}")
    want = {k: v for k, v in want.items() if k[1] in R and k[2] in F and k[3] in P}
    m = {k: v for k, v in fc.meta(u).items() if (k[0] == "lst" and k[1] in {r[-1] for r in R}) or (k[0] == "width" and k[1:] in F)}
    m["spws"] = {c[0] for c in F}
    _check(ctx, f"select({sorted(kw)})", want, m, out, u)
    out.check()
    if rng.integers(4) == 0:
        bad = gen.pick(rng, [{"times": [12.5]}, {"frequencies": [1.0]}, {"polarizations": [-8 if -8 not in polk else 4]}, {"blt_inds": [len(u.time_array)]}, {"blt_inds": [-1]}])
        v = copy.deepcopy(u)
        ctx.raises(ValueError, lambda: v.select(**bad), f"select {bad}")
        d = canon.diff(before, v, exact=True)
        ctx.check(not d, lambda: f"refused select {bad} changed the object: {d[:2]}")
        ctx.ev("select_refused")


def _take(u, ri=None, ti=None, fi=None, pi=None, ai=None):
    n = copy.deepcopy(u)
    ax = {"baseline": {0: ri, 1: fi, 2: pi}, "waterfall": {0: ti, 1: fi, 2: pi}, "antenna": {0: ai, 1: fi, 2: ti, 3: pi}}[u.type]
    for a in fc.DATA:
        v = getattr(n, a)
        if v is not None:
            for k, i in ax.items():
                if i is not None:
                    v = np.take(v, i, axis=k)
            setattr(n, a, v)
    tix = ri if u.type == "baseline" else ti
    if tix is not None:
        n.time_array, n.lst_array = n.time_array[tix], n.lst_array[tix]
        n.Ntimes = len(np.unique(n.time_array))
    if ri is not None:
        for a in ("ant_1_array", "ant_2_array", "baseline_array"):
            setattr(n, a, getattr(n, a)[ri])
        n.Nblts, n.Nbls, n.Nants_data = len(ri), len(np.unique(n.baseline_array)), len(np.union1d(n.ant_1_array, n.ant_2_array))
    if ai is not None:
        n.ant_array = np.asarray(n.ant_array)[ai]
        n.Nants_data = len(ai)
    if fi is not None:
        n.freq_array, n.channel_width, n.flex_spw_id_array = n.freq_array[fi], n.channel_width[fi], n.flex_spw_id_array[fi]
        n.Nfreqs = len(fi)
        n.spw_array = n.spw_array[np.isin(n.spw_array, n.flex_spw_id_array)]
        n.Nspws = len(n.spw_array)
    if pi is not None:
        n.polarization_array = n.polarization_array[pi]
        n.Npols = len(pi)
    return n


def _two(rng, n):
    lab = np.concatenate([[0, 1], rng.integers(0, 2, n - 2)])
    lab = rng.permutation(lab) if rng.integers(2) else np.sort(lab)
    return np.nonzero(lab == 0)[0], np.nonzero(lab == 1)[0]


def add(ctx):
    rng = ctx.rng
    typ = gen.pick(rng, ["baseline", "antenna", "waterfall"])
    axes = ["time", "frequency", gen.pick(rng, ["polarization", "pol", "jones"])] + {"baseline": ["baseline"], "antenna": ["antenna"], "waterfall": []}[typ]
    axis = gen.pick(rng, axes)
    u = gen.make_uvflag(rng, type=typ, **({"layout": gen.pick(rng, ["bl_time", "time_bl"])} if False else {}))
    name = "pol" if axis in ("polarization", "pol", "jones") else axis
    key = {"frequency": "fi", "pol": "pi", "antenna": "ai"}.get(name)
    if typ == "baseline" and name in ("time", "baseline"):
        # two blocks with the same baselines (times), as the method requires
        t = np.unique(u.time_array)
        b = np.unique(u.baseline_array)
        if len(u.time_array) != len(t) * len(b):
            raise Skip()
        lab = (u.time_array if name == "time" else u.baseline_array)
        vals = np.unique(lab)
        if len(vals) < 2:
            raise Skip()
        i, j = _two(rng, len(vals))
        ia, ib = np.nonzero(np.isin(lab, vals[i]))[0], np.nonzero(np.isin(lab, vals[j]))[0]
        pa, pb = _take(u, ri=ia), _take(u, ri=ib)
        same = (lambda x: x.baseline_array) if name == "time" else (lambda x: x.time_array)
        if not np.array_equal(same(pa), same(pb)):
            ctx.raises(ValueError, lambda: pa.__add__(pb, axis=axis), f"adding along {axis} with different {'baselines' if name == 'time' else 'times'}")
            ctx.ev("add_refused")
            return
    else:
        n = {"time": u.Ntimes, "frequency": u.Nfreqs, "pol": u.Npols, "antenna": u.Nants_data}[name]
        if n < 2:
            raise Skip()
        i, j = _two(rng, n)
        key = key or "ti"
        pa, pb = _take(u, **{key: i}), _take(u, **{key: j})
    if rng.integers(2):
        pa, pb = pb, pa
        ctx.ev("add_reverse_order")
    if name == "antenna" and rng.integers(2):
        # the other object knows its antennas in another order
        pb.telescope = pb.telescope.copy()
        o = rng.permutation(pb.telescope.Nants)
        for a in ("antenna_numbers", "antenna_names", "antenna_positions", "antenna_diameters"):
            v = getattr(pb.telescope, a)
            if v is not None:
                setattr(pb.telescope, a, v[o])
    pa.check(), pb.check()
    ctx.case(fc.describe(u), axis)
    sa, sb = canon.snap(pa), canon.snap(pb)
    want = fc.led(u)
    inplace = bool(rng.integers(2))
    if inplace:
        out = copy.deepcopy(pa)
        out.__iadd__(pb, axis=axis)
        ctx.ev("inplace")
    else:
        out = pa.__add__(pb, axis=axis)
        d = canon.diff(sa, pa, exact=True)
        ctx.check(not d, lambda: f"first operand changed: {d[:2]}")
    d = canon.diff(sb, pb, exact=True)
    ctx.check(not d, lambda: f"second operand changed: {d[:2]}")
    _check(ctx, f"add along {axis}", want, fc.meta(u), out, u)
    ctx.check(sa["history"] in out.history, "history lost by addition")
    out.check()
    ctx.ev("add_" + name)
    # incompatible operands are refused
    if rng.integers(3) == 0:
        o = gen.make_uvflag(rng, type=gen.pick(rng, [t for t in ("baseline", "antenna", "waterfall") if t != typ]), mode=u.mode)
        ctx.raises(ValueError, lambda: pa.__add__(o, axis=axis), "adding objects of different types")
        if name != "frequency":
            o = copy.deepcopy(pb)
            o.freq_array = o.freq_array + 7e5
            v = copy.deepcopy(pa)
            ctx.raises(ValueError, lambda: v.__iadd__(o, axis=axis), f"adding along {axis} with other frequencies")
            d = canon.diff(sa, v, exact=True)
            ctx.check(not d, lambda: f"refused addition changed the object: {d[:2]}")
        ctx.ev("add_refused")


def read_list(ctx):
    rng = ctx.rng
    u = gen.make_uvflag(rng, type=gen.pick(rng, ["antenna", "waterfall"]))
    if u.Ntimes < 2:
        raise Skip()
    i, j = _two(rng, u.Ntimes)
    pa, pb = _take(u, ti=i), _take(u, ti=j)
    ctx.case(fc.describe(u))
    pa.write(ctx.path("a.h5")), pb.write(ctx.path("b.h5"))
    names = [ctx.path("a.h5"), ctx.path("b.h5")]
    if rng.integers(2):
        r = UVFlag(names)
    else:
        r = UVFlag()
        r.read(names if rng.integers(2) else tuple(names))
    _check(ctx, "reading a list of files", fc.led(u), fc.meta(u), r, u)
    ctx.check(sorted(r.filename) == ["a.h5", "b.h5"], f"filenames {r.filename}")
    ctx.ev("read_list")


def sort_like(ctx):
    rng = ctx.rng
    u = gen.make_uvflag(rng, type=gen.pick(rng, ["baseline", "antenna"]), extras=True)
    if rng.integers(2):
        u.telescope.antenna_diameters = 1.0 + rng.permutation(u.telescope.Nants)
    o = copy.deepcopy(u)
    p = rng.permutation(u.telescope.Nants)
    for a in ("antenna_numbers", "antenna_names", "antenna_positions", "antenna_diameters"):
        v = getattr(o.telescope, a)
        if v is not None:
            setattr(o.telescope, a, v[p])
    ctx.case(fc.describe(u), p)
    so, want, led = canon.snap(o), fc.ants(u), fc.led(u)
    u.sort_ant_metadata_like(o)
    ctx.check(np.array_equal(u.telescope.antenna_numbers, o.telescope.antenna_numbers), "antenna order not taken over")
    ctx.check(fc.ants(u) == want, lambda: "antenna attributes swapped: " + str([(n, fc.ants(u)[n], want[n]) for n in want if fc.ants(u)[n] != want[n]][:1]))
    ctx.check(fc.led(u) == led, "flags changed")
    ctx.check(not canon.diff(so, o, exact=True), "the model object changed")
    u.check()
    ctx.ev("sorted_like")


def older(ctx):
    """files of older versions: less was stored, and in other shapes"""
    import h5py

    rng = ctx.rng
    u = gen.make_uvflag(rng, collapsed=(rng.integers(6) == 0), infs=False)
    if u.type == "antenna" and not u.flex_spw_id_array.size:
        raise Skip("no channels")
    f = ctx.path("a.h5")
    u.write(f)
    s = canon.snap(u)
    done = []
    with h5py.File(f, "r+") as h:
        H, D = h["Header"], h["Data"]

        def put(k, v, g=H):
            del g[k]
            g[k] = v

        for k in ("Ntimes", "Nfreqs", "Nspws", "Npols", "Nblts", "Nants_data", "Nants_telescope"):
            if k in H and rng.integers(2) and not (k == "Nfreqs" and len(np.unique(u.freq_array)) < u.Nfreqs):
                del H[k]
                done.append("no " + k)
        if rng.integers(2):
            for k in list(D):
                v = D[k][()]
                if k == "weights_square_array" and v.ndim != (4 if u.type == "antenna" else 3):
                    continue
                put(k, np.expand_dims(v, 1), D)
            done.append("window axis in the data")
            ctx.ev("old_spw_axis")
        if rng.integers(2):
            put("freq_array", H["freq_array"][()][None])
            done.append("window axis in the frequencies")
        w = u.channel_width
        df = np.diff(u.freq_array)
        if np.all(w == w[0]) and rng.integers(2):
            if len(df) and np.allclose(np.abs(df), w[0], rtol=1e-9, atol=0) and (np.all(df > 0) or np.all(df < 0)) and rng.integers(2):
                del H["channel_width"]
                done.append("no widths")
                ctx.ev("old_no_width")
            else:
                put("channel_width", float(w[0]))
                done.append("scalar width")
                ctx.ev("old_scalar_width")
        if u.Nspws == 1:
            if rng.integers(2):
                del H["flex_spw_id_array"]
                done.append("no channel ids")
                if rng.integers(2):
                    del H["spw_array"]
                    s["spw_array"], s["flex_spw_id_array"] = np.array([0]), np.zeros(u.Nfreqs, int)
                    done.append("no windows")
                ctx.ev("old_no_spw")
        if rng.integers(2):
            for k in ("latitude", "longitude", "altitude"):
                del H[k]
            L = u.telescope.location
            H["telescope_location"] = np.array([L.x.to_value("m"), L.y.to_value("m"), L.z.to_value("m")])
            done.append("telescope_location")
            ctx.ev("old_location")
            if rng.integers(2) and u.telescope._location.frame == "itrs":
                del H["telescope_frame"]
        if "extra_keywords" in H and rng.integers(3) == 0:
            del H["extra_keywords"]
            s["extra_keywords"] = {}
            done.append("no keywords")
        if "label" in H and rng.integers(3) == 0:
            del H["label"]
            s["label"] = type(u)().label
            done.append("no label")
        for k in ("instrument", "x_orientation", "antenna_diameters"):
            if k in H and rng.integers(4) == 0:
                del H[k]
                s["telescope." + k] = None
                done.append("no " + k)
        if rng.integers(5) == 0:
            del H["antenna_names"]
            s["telescope.antenna_names"] = u.telescope.antenna_numbers.astype(str)
            done.append("no antenna names")
            ctx.ev("old_no_names")
    ctx.case(fc.describe(u), tuple(done))
    kw = {}
    if rng.integers(4) == 0:
        kw["telescope_name"] = "mine"
        s["telescope.name"] = "mine"
        ctx.ev("old_name")
    if rng.integers(4) == 0:
        kw["history"] = "told by me"
    r = UVFlag(f, **kw) if rng.integers(2) else gen.make_uvflag(rng)
    if r.filename != ["a.h5"]:
        r.read(f, **kw)
    ctx.check(s["history"] in r.history and kw.get("history", "") in r.history, "history lost")
    d = canon.diff(s, r, ignore={"history", "filename"}, tols={**TOL, "channel_width": 1e-6})
    ctx.check(not d, lambda: f"file with {done}: {d[:3]}")
    bad = fc.counts(r)
    ctx.check(not bad, f"file with {done}: {bad[:2]}")


SCENARIOS = [
    Scenario("roundtrip", roundtrip, 200, 1500),
    Scenario("select", select, 400, 3000),
    Scenario("add", add, 400, 3000),
    Scenario("read_list", read_list, 60, 400),
    Scenario("sort_like", sort_like, 60, 400),
    Scenario("older", older, 200, 2000),
]
