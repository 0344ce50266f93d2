"""C27 Calibration files give back the solutions that were written."""
import copy

import numpy as np

from pyuvdata import UVCal
from vmon import canon, gen
from vmon.core import Scenario, Skip
from vmon.props import calcommon as cc
from vmon.props.c28 import _take, _cut

RULE = (
    "random calibration objects within what each format states it represents, written and read back (whole, selectively, as several "
    "files, through the generic reader, metadata only); the ledger of solutions by (antenna, window, frequency, time, Jones) and all "
    "metadata are compared; non-trivial = distinct (object, format, options)"
)
REQUIRED = ["calfits", "calh5", "mscal", "calfits_delay", "calfits_range", "calfits_refused", "calfits_desc", "calh5_partial", "calh5_meta", "calh5_flexjones",
            "calh5_wide", "calh5_delay", "calh5_overwrite", "multi", "mscal_delay", "mscal_wide", "mscal_range", "mscal_catalog", "mscal_multispw", "mscal_one_jones",
            "mscal_reversed_jones", "mscal_tqa", "mscal_refant_array", "fast_meta", "jones_desc", "mscal_subset_ants", "mscal_flexjones", "calfits_older", "calfits_many_times", "calfits_long_names"]


def _snapaxis(want, got, tol):
    """replace values of got by the equal (within tol) values of want"""
    got = np.array(got, float)
    w = np.asarray(want, float).ravel()
    flat = got.ravel()
    for i, v in enumerate(flat):
        k = np.argmin(np.abs(w - v))
        if abs(w[k] - v) <= tol:
            flat[i] = w[k]
    return flat.reshape(got.shape)


def _align(a, b):
    """copy of b whose times and frequencies are those of a where they agree within 1 ms / 1 Hz"""
    b = copy.deepcopy(b)
    ms = 1e-3 / 86400
    if a.time_array is not None and b.time_array is not None:
        b.time_array = _snapaxis(a.time_array, b.time_array, ms)
    if a.time_range is not None and b.time_range is not None:
        b.time_range = _snapaxis(a.time_range, b.time_range, ms)
    if a.lst_array is not None and b.lst_array is not None:
        b.lst_array = _snapaxis(a.lst_array, b.lst_array, 1e-6)
    if a.lst_range is not None and b.lst_range is not None:
        b.lst_range = _snapaxis(a.lst_range, b.lst_range, 1e-6)
    if a.freq_array is not None and b.freq_array is not None:
        b.freq_array = _snapaxis(a.freq_array, b.freq_array, 1.0)
    if a.freq_range is not None and b.freq_range is not None:
        b.freq_range = _snapaxis(a.freq_range, b.freq_range, 1.0)
    if a.channel_width is not None and b.channel_width is not None:
        b.channel_width = _snapaxis(a.channel_width, b.channel_width, 1e-3)
    b.integration_time = _snapaxis(a.integration_time, b.integration_time, 1e-3)
    return b


def _cmp(ctx, what, a, b, *, scal, tm=True, tol=0.0, qtol=0.0, quality=True, tqa=True, tel=True, order=True, ants=None):
    bad = cc.counts(b)
    ctx.check(not bad, f"{what}: counts are wrong: {bad[:2]}")
    b = _align(a, b)
    (sa, ta), (sb, tb) = cc.sol(a), cc.sol(b)
    if ants is not None:  # extra antennas are there, flagged
        for k in list(sb):
            if k[0] not in ants:
                ctx.check(sb[k][1], lambda: f"{what}: solution {k} of an antenna without data is not flagged")
                sb.pop(k)
    ctx.check(set(sa) == set(sb), lambda: f"{what}: {len(set(sa) ^ set(sb))} solutions only on one side, e.g. {sorted(map(str, set(sa) ^ set(sb)))[:2]}")
    for k, v in sa.items():
        w = sb[k]
        ctx.check(abs(v[0] - w[0]) <= tol * abs(v[0]) and v[1] == w[1], lambda: f"{what}: solution {k} was {v}, is {w}")
        if quality:
            ctx.check((v[2] is None) == (w[2] is None) and (v[2] is None or abs(v[2] - w[2]) <= qtol * abs(v[2])), lambda: f"{what}: quality {k} was {v}, is {w}")
    if tqa:
        ctx.check(set(ta) == set(tb) and all(abs(ta[k] - tb[k]) <= qtol * abs(ta[k]) for k in ta), f"{what}: total qualities differ")
    if order:
        ctx.check(cc.tkeys(a) == cc.tkeys(b), f"{what}: times {cc.tkeys(a)} became {cc.tkeys(b)}")
        ctx.check(cc.fkeys(a) == cc.fkeys(b) if ants is None else sorted(cc.fkeys(a)) == sorted(cc.fkeys(b)), f"{what}: frequencies {cc.fkeys(a)} became {cc.fkeys(b)}")
        if ants is None:
            ctx.check(a.ant_array.tolist() == b.ant_array.tolist(), f"{what}: antenna order changed")
        ctx.check(cc.jkeys(a) == cc.jkeys(b) if ants is None else sorted(cc.jkeys(a)) == sorted(cc.jkeys(b)), f"{what}: Jones order changed")
    if tm:
        d = cc.mdiff(cc.tmeta(a), cc.tmeta(b))
        ctx.check(d is None, lambda: f"{what}: time metadata {d}")
    d = cc.mdiff(cc.fmeta(a), cc.fmeta(b))
    ctx.check(d is None, lambda: f"{what}: channel metadata {d}")
    for s in scal:
        x, y = getattr(a, s), getattr(b, s)
        same = (x is None and y is None) or (x is not None and y is not None and (np.allclose(x, y) if isinstance(x, (np.ndarray, list, tuple)) else x == y))
        ctx.check(same, lambda: f"{what}: {s} was {x!r}, is {y!r}")
    if tel:
        _tel(ctx, what, a.telescope, b.telescope)
    ctx.check(a.history.strip() in b.history.replace("\n", ""), lambda: f"{what}: history {a.history!r} lost, is {b.history!r}")


def _tel(ctx, what, a, b, used=None):
    A = {int(n): (str(s), p, None if a.antenna_diameters is None else d) for n, s, p, d in zip(
        a.antenna_numbers, a.antenna_names, a.antenna_positions, a.antenna_diameters if a.antenna_diameters is not None else a.antenna_numbers)}
    B = {int(n): (str(s), p, None if b.antenna_diameters is None else d) for n, s, p, d in zip(
        b.antenna_numbers, b.antenna_names, b.antenna_positions, b.antenna_diameters if b.antenna_diameters is not None else b.antenna_numbers)}
    ctx.check(set(A) == set(B), lambda: f"{what}: antennas {sorted(A)} became {sorted(B)}")
    for n, (s, p, d) in A.items():
        s2, p2, d2 = B[n]
        ctx.check(s == s2, lambda: f"{what}: antenna {n} was named {s}, is {s2}")
        ctx.check(np.abs(p - p2).max() < 2e-3, lambda: f"{what}: antenna {n} was at {p}, is at {p2}")
        if d is not None:
            ctx.check(d2 is not None and abs(d - d2) < 1e-6, lambda: f"{what}: antenna {n} diameter {d} became {d2}")
    ctx.check(a.name == b.name and a.x_orientation == b.x_orientation, f"{what}: telescope {a.name}/{a.x_orientation} became {b.name}/{b.x_orientation}")
    x = np.array([v.to_value("m") for v in a.location.geocentric] if hasattr(a.location, "geocentric") else a._location.xyz())
    y = np.array([v.to_value("m") for v in b.location.geocentric] if hasattr(b.location, "geocentric") else b._location.xyz())
    ctx.check(np.abs(x - y).max() < 2e-3, lambda: f"{what}: telescope moved from {x} to {y}")


def _evq(ctx, c):
    if c.flex_jones_array is not None:
        ctx.ev("calh5_flexjones")


def _older_calfits(ctx, c, p):
    """rewrite the file into one with the same meaning, as older versions and other programs wrote them"""
    from astropy.io import fits

    rng = ctx.rng
    ops = []
    with fits.open(p) as f:
        hdus = [type(h)(data=None if h.data is None else h.data.copy(), header=h.header.copy()) for h in f]
    h = hdus[0].header
    if rng.integers(2):
        for k in ("ARRAYX", "ARRAYY", "ARRAYZ"):
            del h[k]
        ops.append("geodetic")
    elif rng.integers(2):
        for k in ("LAT", "LON", "ALT"):
            del h[k]
        ops.append("geocentric")
    if rng.integers(2) and h["FRAME"] == "itrs":
        del h["FRAME"]
        ops.append("noframe")
    if c.quality_array is not None and rng.integers(2):
        del h["HASQLTY"]
        ops.append("nohasqlty")
    if c.cal_type == "gain" and rng.integers(2):
        h["FRQRANGE"] = f"{c.freq_array.min()},{c.freq_array.max()}"
        ops.append("frqrange")
    if c.cal_type == "delay" and rng.integers(2):
        k = [x.header.get("EXTNAME") for x in hdus].index("FLAGS")
        n = int(rng.integers(2, 5))
        fl = np.repeat(hdus[k].data, n, axis=2)
        some = rng.random(fl.shape) < 0.3  # a delay is flagged when all its channels are
        some[:, :, int(rng.integers(n))] = False
        keep = hdus[k].data.astype(bool)
        fl = np.where(keep, 1, some & ~keep).astype(fl.dtype)
        hdus[k] = fits.ImageHDU(data=fl, header=hdus[k].header)
        ops.append("flagchannels")
    if rng.integers(2):
        hdus = [hdus[0]] + [hdus[1:][i] for i in rng.permutation(len(hdus) - 1)]
        ops.append("hduorder")
    if ops:
        fits.HDUList(hdus).writeto(p, overwrite=True)
        ctx.ev("calfits_older")
        ctx.case(*ops, *cc.describe(c))


def calfits(ctx):
    rng = ctx.rng
    kind = gen.pick(rng, ["gain", "gain", "delay"])
    kw = dict(wide=False, even_freq=True) if kind == "gain" else dict(wide=True)
    rangd = bool(rng.integers(4) == 0)
    nt = 1 if rangd else int(rng.integers(1, 5))
    many = not rangd and rng.integers(6) == 0
    if many:
        kw.update(nants=3, jones=[-5], times=2457458.1 + rng.random() + np.arange(int(rng.integers(40, 150))) * rng.uniform(5, 12) / 86400)
        ctx.ev("calfits_many_times")
    c = gen.make_uvcal(rng, cal_type=kind, nspw=1, spw_ids=[0] if kind == "gain" else None, time_range=rangd, ntimes=nt, uniform_time=True, catalog=False, scan=False, **kw)
    c.spw_array = np.array([0])
    if kind == "gain":
        c.flex_spw_id_array = np.zeros(c.Nfreqs, int)
    c.integration_time = np.full(c.Ntimes, float(rng.uniform(1, 30)))
    if many and rng.integers(2):
        # integrations nearly, but not quite, as long as the interval between the solutions
        c.integration_time[:] = (c.time_array[1] - c.time_array[0]) * 86400 + rng.uniform(-8e-4, 8e-4)
    if rng.integers(4) == 0:
        names = np.array([f"a long name {'x' * int(rng.integers(6))} {i}" for i in rng.permutation(c.telescope.Nants)])
        old = dict(zip(c.telescope.antenna_names.tolist(), names.tolist()))
        c.telescope.antenna_names = names
        c.ref_antenna_name = old.get(c.ref_antenna_name, c.ref_antenna_name)
        ctx.ev("calfits_long_names")
    if c.ref_antenna_array is not None:
        c.ref_antenna_array = None
        c.ref_antenna_name = str(c.telescope.antenna_names[0])
    bad = None
    if rng.integers(5) == 0:
        bad = gen.pick(rng, ["multispw", "ranges", "uneven_time", "uneven_freq", "uneven_jones", "var_int", "wide_gain"])
        if bad == "multispw":
            c = gen.make_uvcal(rng, nspw=2)
        elif bad == "ranges":
            c = gen.make_uvcal(rng, nspw=1, time_range=True, ntimes=3)
        elif bad == "uneven_time":
            t = 2458000.5 + np.array([0, 1, 3.5]) * 10 / 86400
            c = gen.make_uvcal(rng, nspw=1, time_range=False, times=t, wide=False, even_freq=True)
            c.integration_time[:] = 10.0
        elif bad == "uneven_freq":
            c = gen.make_uvcal(rng, nspw=1, time_range=False, ntimes=1, wide=False, even_freq=True, chans=4)
            c.freq_array[1] += 0.3 * c.channel_width[0]
        elif bad == "uneven_jones":
            c = gen.make_uvcal(rng, nspw=1, time_range=False, ntimes=1, wide=False, even_freq=True, jones=[-5, -7, -8])
        elif bad == "wide_gain":
            c = gen.make_uvcal(rng, nspw=1, time_range=False, ntimes=1, wide=True, cal_type="gain")
        else:
            c = gen.make_uvcal(rng, nspw=1, time_range=False, ntimes=3, wide=False, even_freq=True, uniform_time=True)
            c.integration_time = np.array([10.0, 12.0, 10.0])
        p = ctx.path("bad.calfits")
        ctx.case("refuse", bad, *cc.describe(c))
        ctx.raises(ValueError, lambda: c.write_calfits(str(p)), f"writing {bad} to calfits")
        ctx.ev("calfits_refused")
        return
    if kind == "gain" and c.Nfreqs > 1 and rng.integers(3) == 0:
        k = gen.pick(rng, ["gaps", "desc"])
        if k == "gaps":
            c.channel_width = c.channel_width * 0.5
        else:
            c = _take(c, fi=np.arange(c.Nfreqs)[::-1])
            ctx.ev("calfits_desc")
    if c.Njones > 1 and np.all(np.diff(c.jones_array) == -1) and rng.integers(3) == 0:
        c = _take(c, ji=np.arange(c.Njones)[::-1])
    if not (c.Njones < 2 or len(np.unique(np.diff(c.jones_array))) == 1):
        raise Skip("uneven jones")
    if c.Njones > 1 and np.diff(c.jones_array)[0] > 0:
        ctx.ev("jones_desc")
    ctx.case("calfits", *cc.describe(c))
    ctx.ev("calfits")
    if kind == "delay":
        ctx.ev("calfits_delay")
    if rangd:
        ctx.ev("calfits_range")
    p = str(ctx.path("c.calfits"))
    before = canon.snap(c)
    c.write_calfits(p, clobber=bool(rng.integers(2)))
    d = canon.diff(before, c, exact=True)
    ctx.check(not d, f"writing calfits changed the object: {d[:2]}")
    if rng.integers(3) == 0:
        _older_calfits(ctx, c, p)
    r = UVCal.from_file(p) if rng.integers(2) else UVCal()
    if r.ant_array is None:
        r.read_calfits(p)
    _cmp(ctx, "calfits", c, r, scal=cc.SCALARS + ["Nsources"])
    ek = {k.upper()[:8]: v for k, v in c.extra_keywords.items()}
    ctx.check(canon.valdiff(ek, r.extra_keywords) is None, f"extra keywords {ek} became {r.extra_keywords}")
    ctx.check(c.telescope.instrument == r.telescope.instrument, "instrument changed")
    m = UVCal()
    m.read_calfits(p, read_data=False)
    ctx.check(m.metadata_only and cc.tkeys(_align(c, m)) == cc.tkeys(c) and cc.fkeys(_align(c, m)) == cc.fkeys(c) and m.ant_array.tolist() == c.ant_array.tolist(), "metadata-only read differs")
    r.check()


def calh5(ctx):
    rng = ctx.rng
    c = gen.make_uvcal(rng, nants=int(rng.integers(3, 7)), ntimes=int(rng.integers(1, 6)))
    if rng.integers(6) == 0:
        c.convert_to_flex_jones()
    _evq(ctx, c)
    if c.wide_band:
        ctx.ev("calh5_wide")
    if c.cal_type == "delay":
        ctx.ev("calh5_delay")
    if rng.integers(3) == 0:
        c.extra_keywords = {"none": None, "a long key name": "text", "Num": 4, "val": 2.5}
    p = str(ctx.path("c.calh5"))
    over = bool(rng.integers(3) == 0)
    if over:
        gen.make_uvcal(rng).write_calh5(p)
        ctx.ev("calh5_overwrite")
    before = canon.snap(c)
    opts = gen.pick(rng, [{}, {"data_compression": "lzf"}, {"flags_compression": None, "quality_compression": None}, {"chunks": True}])
    c.write_calh5(p, clobber=over, **opts)
    d = canon.diff(before, c, exact=True)
    ctx.check(not d, f"writing calh5 changed the object: {d[:2]}")
    ctx.case("calh5", *cc.describe(c), opts, over)
    ctx.ev("calh5")
    r = UVCal.from_file(p)
    _cmp(ctx, "calh5", c, r, scal=cc.SCALARS, qtol=1e-6)
    for a in ("time_array", "time_range", "lst_array", "lst_range", "freq_array", "freq_range", "channel_width", "integration_time", "spw_array", "flex_spw_id_array",
              "flex_jones_array", "phase_center_id_array", "ref_antenna_array", "scan_number_array"):
        x, y = getattr(c, a), getattr(r, a)
        ctx.check((x is None) == (y is None) and (x is None or np.array_equal(x, y)), f"calh5: {a} changed: {x} -> {y}")
    d = canon.valdiff(c.extra_keywords, r.extra_keywords)
    ctx.check(d is None, f"calh5: extra keywords {d}")
    d = canon.diff(c, r, only={"telescope." + a for a in canon.TEL_ATTRS}, exact=True)
    ctx.check(not d, f"calh5: telescope changed {d[:2]}")
    if c.phase_center_catalog is not None:
        d = canon.valdiff(c.phase_center_catalog, r.phase_center_catalog)
        ctx.check(d is None, f"calh5: catalog {d}")
    # partial reads = read then select
    kw = {}
    if rng.integers(2):
        n = rng.permutation(c.ant_array)[: int(rng.integers(1, c.Nants_data + 1))]
        kw["antenna_nums"] = [int(x) for x in n]
    if rng.integers(2) and not c.wide_band:
        kw["freq_chans"] = np.sort(rng.choice(c.Nfreqs, int(rng.integers(1, c.Nfreqs + 1)), replace=False))
    elif c.Nspws > 1:
        kw["spws"] = rng.choice(c.spw_array, int(rng.integers(1, c.Nspws + 1)), replace=False)
    if rng.integers(2):
        t = c.time_array if c.time_range is None else c.time_range.mean(1)
        kw["times"] = np.sort(rng.choice(t, int(rng.integers(1, c.Ntimes + 1)), replace=False))
    if rng.integers(3) == 0 and c.flex_jones_array is None:
        kw["jones"] = [int(x) for x in rng.choice(c.jones_array, int(rng.integers(1, c.Njones + 1)), replace=False)]
    s = UVCal.from_file(p, **kw)
    w = r.select(inplace=False, **kw)
    what = f"calh5 partial read { {k: str(v)[:50] for k, v in kw.items()} }"
    d = canon.diff(w, s, ignore={"history", "filename"}, exact=True)
    ctx.check(not d, lambda: f"{what} differs from read and select: {d[:3]}")
    ctx.ev("calh5_partial")
    m = UVCal()
    m.read_calh5(p, read_data=False)
    dat = {"gain_array", "delay_array", "flag_array", "quality_array", "total_quality_array", "history", "filename"}
    d = canon.diff(r, m, ignore=dat, exact=True)
    ctx.check(m.metadata_only and not d, lambda: f"calh5 metadata-only read differs: {d[:3]}")
    ctx.ev("calh5_meta")
    from pyuvdata.uvcal.calh5 import FastCalH5Meta

    fm = FastCalH5Meta(p)
    for a in ("ant_array", "time_array", "freq_array", "jones_array", "spw_array", "integration_time"):
        x = getattr(c, a)
        if x is None:
            continue
        ctx.check(np.array_equal(np.asarray(x), np.asarray(getattr(fm, a))), f"FastCalH5Meta.{a} differs")
    ctx.check(fm.has_key(int(c.ant_array[0])) and not fm.has_key(int(c.ant_array.max()) + 1), "FastCalH5Meta.has_key is wrong")
    if c.flex_jones_array is None:
        ctx.check(fm.has_key(int(c.ant_array[0]), int(c.jones_array[0])) and not fm.has_key(int(c.ant_array[0]), 13), "FastCalH5Meta.has_key is wrong")
    ctx.ev("fast_meta")
    fm.close()


def multi(ctx):
    """several files read at once are the whole object"""
    rng = ctx.rng
    fmt = gen.pick(rng, ["calh5", "calfits"])
    kw = dict(nspw=1, wide=False, even_freq=True, spw_ids=[0]) if fmt == "calfits" else {}
    c = gen.make_uvcal(rng, nants=4, ntimes=int(rng.integers(2, 5)), time_range=False, uniform_time=True, catalog=False, scan=False, total_quality=False, **kw)
    c.integration_time[:] = 10.0
    if c.ref_antenna_array is not None:
        c.ref_antenna_array = None
        c.ref_antenna_name = str(c.telescope.antenna_names[0])
    if fmt == "calfits" and not (c.Njones < 2 or len(np.unique(np.diff(c.jones_array))) == 1):
        raise Skip("uneven jones")
    axis = gen.pick(rng, ["time", "antenna"] + (["freq"] if not c.wide_band and c.Nspws == 1 else []))
    if {"time": c.Ntimes, "antenna": c.Nants_data, "freq": c.Nfreqs}[axis] < 2:
        raise Skip("one element")
    n = {"time": c.Ntimes, "antenna": c.Nants_data, "freq": c.Nfreqs}[axis]
    cut = int(rng.integers(1, n))
    parts = [np.arange(cut), np.arange(cut, n)]
    key = {"time": "ti", "antenna": "ai", "freq": "fi"}[axis]
    files = []
    for i, ix in enumerate(parts):
        f = str(ctx.path(f"m{i}.{fmt}"))
        getattr(_take(c, **{key: ix}), "write_" + fmt)(f)
        files.append(f)
    ax = gen.pick(rng, [None, axis])
    if ax is None and rng.integers(2):
        files = files[::-1]
        sk = False
    else:
        sk = True
    r = UVCal.from_file(files, axis=ax)
    ctx.case("multi", fmt, axis, ax, *cc.describe(c))
    ctx.ev("multi")
    rr = _align(c, r)
    if fmt == "calfits":
        rr.lst_array = copy.copy(c.lst_array) if len(c.lst_array) == len(rr.lst_array) else rr.lst_array
    d = cc.soldiff(cc.sol(c)[0], cc.sol(rr)[0], 1e-6)
    ctx.check(d is None, lambda: f"reading {fmt} files cut along {axis} with axis={ax}: {d}")
    if sk and ax is not None:
        ctx.check(cc.tkeys(c) == cc.tkeys(rr) and cc.fkeys(c) == cc.fkeys(rr) and c.ant_array.tolist() == rr.ant_array.tolist(), "axes are not in file order")
    ctx.check(not cc.counts(r), f"counts wrong {cc.counts(r)}")


def mscal(ctx):
    rng = ctx.rng
    kind = gen.pick(rng, ["gain", "gain", "wide", "delay"])
    jones = gen.pick(rng, [[-5, -6], [-6, -5], [-5], [-6], [-1, -2], [-2, -1]])
    tel = gen.make_telescope(rng, nants=int(rng.integers(2, 6)))
    tel.antenna_numbers = np.sort(rng.choice(30, tel.Nants, replace=False)) if rng.integers(2) else tel.antenna_numbers
    if max(tel.antenna_numbers) > 200:
        tel.antenna_numbers = rng.permutation(40)[: tel.Nants]
    c = gen.make_uvcal(rng, tel=tel, cal_type="delay" if kind == "delay" else "gain", wide=kind != "gain", jones=jones, gain_convention="divide",
                       ntimes=int(rng.integers(1, 4)), time_range=bool(rng.integers(4) == 0), style="sky" if rng.integers(4) else "redundant")
    flex = kind != "delay" and len(jones) == 2 and c.Nspws > 1 and rng.integers(5) == 0
    if flex:
        c.convert_to_flex_jones()
        ctx.ev("mscal_flexjones")
    if c.ref_antenna_name is not None and c.ref_antenna_array is None:
        c.ref_antenna_name = str(tel.antenna_names[int(rng.integers(tel.Nants))])
    if c.extra_keywords:
        c.extra_keywords = {"MSName": "abc", "OTHER": 3}
    if c.phase_center_catalog is not None and c.Ntimes > 1 and rng.integers(2):
        cid = c._add_phase_center("second", cat_type="sidereal", cat_lon=0.4, cat_lat=0.1, cat_frame="icrs", cat_epoch=2000.0)
        c.phase_center_id_array[0] = cid
    if not c.wide_band:
        # channels of a window lie together
        ids = c.flex_spw_id_array
        if 1 + np.count_nonzero(np.diff(ids)) != len(np.unique(ids)):
            raise Skip("interspersed")
    c.check()
    ctx.case("mscal", kind, *cc.describe(c), jones)
    for e, v in (("mscal_delay", kind == "delay"), ("mscal_wide", kind == "wide"), ("mscal_range", c.time_range is not None), ("mscal_catalog", c.phase_center_catalog is not None),
                 ("mscal_multispw", c.Nspws > 1), ("mscal_one_jones", len(jones) == 1), ("mscal_reversed_jones", len(jones) == 2 and jones[0] < jones[1]),
                 ("mscal_tqa", c.total_quality_array is not None), ("mscal_refant_array", c.ref_antenna_array is not None), ("mscal_subset_ants", c.Nants_data < c.telescope.Nants)):
        if v:
            ctx.ev(e)
    p = str(ctx.path("c.ms"))
    before = canon.snap(c)
    c.write_ms_cal(p)
    d = canon.diff(before, c, exact=True)
    ctx.check(not d, f"writing an MS calibration table changed the object: {d[:2]}")
    r = UVCal.from_file(p)
    ctx.ev("mscal")
    scal = [s for s in ("cal_type", "gain_convention", "wide_band", "gain_scale", "pol_convention", "observer", "sky_catalog", "cal_style")]
    if c.ref_antenna_array is None and c.cal_style == "sky":
        scal.append("ref_antenna_name")
    _cmp(ctx, "mscal", c, r, scal=scal, tm=False, tol=1e-6, quality=c.quality_array is not None and c.total_quality_array is None, qtol=1e-6, tqa=False,
         ants=set(c.ant_array.tolist()), order=True)
    rr = _align(c, r)
    got = cc.tmeta(rr)
    for k, v in cc.tmeta(c).items():
        g = got[k]
        ctx.check(g[0] == v[0], f"mscal: integration time of {k} was {v[0]}, is {g[0]}")
        if v[5] is not None:
            ctx.check(g[5] == v[5], f"mscal: scan number of {k} was {v[5]}, is {g[5]}")
        if c.ref_antenna_array is not None and len(set(c.ref_antenna_array.tolist())) > 1:
            ctx.check(g[4] == v[4], f"mscal: reference antenna of {k} was {v[4]}, is {g[4]}")
    if c.phase_center_catalog is not None:
        for i, t in enumerate(cc.tkeys(c)):
            j = cc.tkeys(rr).index(t)
            x = c.phase_center_catalog[int(c.phase_center_id_array[i])]
            y = r.phase_center_catalog[int(r.phase_center_id_array[j])]
            ctx.check(x["cat_name"] == y["cat_name"] and abs(x["cat_lon"] - y["cat_lon"]) < 1e-9 and abs(x["cat_lat"] - y["cat_lat"]) < 1e-9,
                      lambda: f"mscal: phase center of time {t} was {x}, is {y}")
    if c.quality_array is not None and c.total_quality_array is not None:
        sa, ta = cc.sol(c)
        sb, _ = cc.sol(rr)
        for k, v in sa.items():
            q = v[2] * ta[k[1:]]
            ctx.check(abs(sb[k][2] - q) <= 1e-6 * abs(q), lambda: f"mscal: quality of {k} is {sb[k][2]}, expected the product {q}")
    r.check()


SCENARIOS = [
    Scenario("calfits", calfits, 250, 4000),
    Scenario("calh5", calh5, 250, 4000),
    Scenario("multi", multi, 80, 1500),
    Scenario("mscal", mscal, 110, 2000),
]
