"""C37 Reading a list of files equals reading every file and combining the objects."""
import copy
import os
import warnings

import h5py
import numpy as np

from pyuvdata import UVBeam, UVCal, UVData, UVFlag
from vmon import canon, gen
from vmon.core import Scenario, Skip
from vmon.props import beamcommon as bc
from vmon.props import c35, c36, common
from vmon.props import calcommon as cc
from vmon.props import flagcommon as fc
from vmon.props.c02 import fits_uv
from vmon.props.c03 import mir_uv
from vmon.props.c05 import random_select
from vmon.props.c28 import _take as cal_take
from vmon.props.c30 import _take as flag_take

RULE = (
    "random objects cut along one axis into 1-4 files of every format, some of them missing, truncated or not of the format; the list is read "
    "in one call (random container, receiving object already holding other data, selections, pass-through options, axis, skip_bad_files) and "
    "compared with the combination of the files read one by one with the same options. non-trivial = distinct (files, options)"
)
REQUIRED = ["uvh5", "uvfits", "miriad", "ms", "mir", "mwa", "calh5", "calfits", "beamfits", "uvflag", "with_axis", "without_axis", "skip_bad", "bad_raised",
            "all_bad", "selected", "one_file", "metadata_only", "dirty_receiver", "first_bad", "nothing_selected_in_one", "skipped_in_beams",
            "sel_catalog_names", "sel_phase_center_ids", "mir_receivers", "mir_sidebands", "mir_corrchunk", "cal_axis", "cal_selected", "flag_older", "beam_range", "fhd_routing"]

CATCH = (KeyError, ValueError, OSError)
FULL = {"history", "filename"}


def quiet(fn, *a, **k):
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        r = fn(*a, **k)
    return r, [str(x.message) for x in w]


def listof(rng, x):
    c = int(rng.integers(3))
    return list(x) if c == 0 else tuple(x) if c == 1 else np.array(x)


def singles(cls, files, kw):
    """every file read alone; None (and why) for those which cannot be read"""
    out = []
    for f in files:
        o = cls()
        try:
            quiet(o.read, f, **kw)
            out.append(o)
        except CATCH as e:
            out.append(e)
        except Exception as e:
            raise Skip(f"single read: {type(e).__name__}") from e
    return out


def damage(rng, fn, fmt):
    """something in the place of a file which cannot be read"""
    kind = gen.pick(rng, {"uvh5": ["cut", "text", "missing", "nohead"], "uvfits": ["cut", "text", "missing"], "miriad": ["missing"], "ms": ["missing", "empty"],
                          "beamfits": ["text", "missing", "cut"]}[fmt])
    if kind == "cut":
        n = os.path.getsize(fn)
        with open(fn, "r+b") as f:
            f.truncate(int(rng.integers(10, max(n // 3, 11))))
    elif kind == "text":
        with open(fn, "w") as f:
            f.write("this is not the file you are looking for\n" * int(rng.integers(1, 40)))
    elif kind == "nohead":
        with h5py.File(fn, "a") as f:
            del f["Header"]
    else:
        os.rename(fn, fn + ".gone")
        if kind == "empty":
            os.mkdir(fn)
    return kind


def cut(rng, n, k):
    k = min(n, k)
    c = np.sort(rng.choice(np.arange(1, n), k - 1, replace=False)) if k > 1 else []
    return np.split(np.arange(n), c)


def judge(ctx, cls, files, kw, opt, good, combine, compare, what, known_name=None):
    """read the list and compare with the combination of the single reads `good` (exceptions where unreadable)"""
    rng = ctx.rng
    skip = bool(opt.get("skip_bad_files"))
    ok = [g for g in good if not isinstance(g, Exception)]
    bad = [g for g in good if isinstance(g, Exception)]
    r = cls()
    arg = listof(rng, files)
    ctx.log(what, len(files), [type(g).__name__ for g in good], opt, {k: str(v)[:50] for k, v in kw.items()})
    if bad and not skip:
        ctx.raises(CATCH, lambda: quiet(r.read, arg, **kw, **opt), f"{what}: a list with an unreadable file")
        ctx.ev("bad_raised")
        return None
    if not ok:
        _, w = quiet(r.read, arg, **kw, **opt)
        ctx.check(any("ALL FILES FAILED" in x for x in w), f"{what}: no file could be read, but nothing says so")
        ctx.ev("all_bad")
        return None
    if ok and rng.integers(3) == 0:
        # the receiving object already holds something else
        r = copy.deepcopy(ok[int(rng.integers(len(ok)))])
        r.history = "something else"
        if getattr(r, "extra_keywords", None) is not None:
            r.extra_keywords["stale"] = 1
        ctx.ev("dirty_receiver")
    fresh = [copy.deepcopy(g) for g in ok]
    try:
        want, _ = quiet(combine, fresh)
        refused = None
    except ValueError as e:
        refused = e
    if refused is not None:
        try:
            quiet(r.read, arg, **kw, **opt)
        except ValueError:
            pass
        raise Skip("the pieces cannot be combined")
    _, w = quiet(r.read, arg, **kw, **opt)
    if bad:
        ctx.ev("skip_bad")
        if isinstance(good[0], Exception):
            ctx.ev("first_bad")
        said = " ".join(w)
        ctx.check("Failed to read" in said, f"{what}: unreadable files are left out silently")
        for f, g in zip(files, good):
            if isinstance(g, Exception):
                if known_name and f"Failed to read {f}" not in said:
                    ctx.finding(known_name, f"{what}: the warning names other files than the unreadable one")
                    break
                ctx.check(f"Failed to read {f}" in said, f"{what}: the warning does not name the unreadable file {os.path.basename(f)}: {said[:300]}", "name-of-unreadable")
    compare(r, want, ok)
    names = sorted(os.path.basename(str(f).rstrip("/")) for f, g in zip(files, good) if not isinstance(g, Exception))
    if len(files) > 0 and getattr(r, "filename", None) is not None:
        ctx.check(sorted(r.filename) == names, f"{what}: filename is {r.filename} for {names}")
    return r


def uvd(ctx):
    rng = ctx.rng
    fmt = gen.pick(rng, ["uvh5"] * 4 + ["uvfits"] * 3 + ["miriad"] * 3 + ["ms"])
    axis = gen.pick(rng, ["blt", "blt", "freq", "polarization"])
    if fmt == "ms":
        axis = "blt"
    k = dict(nbl=int(rng.integers(1, 6)), nspw=1 if axis == "freq" else None)
    if fmt == "uvh5":
        uv = gen.make_uvdata(rng, **k)
    elif fmt == "uvfits":
        uv = fits_uv(ctx, **k)
    elif fmt == "miriad":
        uv = mir_uv(ctx, **k)
    else:
        uv = gen.make_uvdata(rng, kinds=["sidereal"], even_freq=True, chans=3, pols=gen.make_pols(rng, kind="lin"), **k)
    if fmt in ("ms", "miriad") and rng.integers(2) == 0:
        pass
    n = {"blt": uv.Ntimes, "freq": uv.Nfreqs, "polarization": uv.Npols}[axis]
    parts = cut(rng, n, int(rng.integers(1, 5)))
    files = []
    ext = {"uvh5": "uvh5", "uvfits": "uvfits", "miriad": "uv", "ms": "ms"}[fmt]
    ut = np.unique(uv.time_array)
    for i, p in enumerate(parts):
        if axis == "blt":
            s = uv.select(times=ut[p], inplace=False)
        elif axis == "freq":
            s = uv.select(freq_chans=p, inplace=False)
        else:
            s = uv.select(polarizations=[int(v) for v in uv.polarization_array[p]], inplace=False)
        f = ctx.path(f"f{i}.{ext}")
        try:
            quiet(getattr(s, "write_" + fmt), f)
        except ValueError as e:
            raise Skip("the piece does not fit the format") from e
        files.append(f)
    files = [files[i] for i in rng.permutation(len(files))]
    kw = {}
    ref = UVData()
    quiet(ref.read, files[int(rng.integers(len(files)))])
    if rng.integers(2):
        keys = ["antenna_nums", "antenna_names", "bls", "ant_str", "times", "time_range", "lsts", "lst_range", "phase_center_ids", "catalog_names", "catalog_names",
                "frequencies", "freq_chans", "polarizations"]
        if fmt == "miriad":
            keys.remove("phase_center_ids")
        sk, *_ = random_select(ctx, ref, keys)
        kw.update(sk)
    if rng.integers(5) == 0 and fmt in ("uvh5", "uvfits"):
        kw["read_data"] = False
    if rng.integers(4) == 0:
        kw["keep_all_metadata"] = False
    if rng.integers(4) == 0:
        kw["background_lsts"] = False
    if fmt == "uvh5":
        if rng.integers(4) == 0:
            kw["data_array_dtype"] = gen.pick(rng, [np.complex64, np.complex128])
        if rng.integers(4) == 0:
            kw["multidim_index"] = True
    if fmt == "miriad":
        if rng.integers(4) == 0:
            kw["calc_lst"] = False
    opt = {}
    kinds = []
    if rng.integers(3) == 0:
        nb = int(rng.integers(1, len(files) + 1))
        for i in rng.permutation(len(files))[:nb]:
            kinds.append(damage(rng, files[i], fmt))
        opt["file_type"] = fmt
    elif rng.integers(4) == 0:
        opt["file_type"] = fmt
    if kinds or rng.integers(3) == 0:
        if rng.integers(4):
            opt["skip_bad_files"] = True
    if rng.integers(2):
        opt["axis"] = axis
    if not kinds and rng.integers(2):
        kw.setdefault("file_type", opt.pop("file_type", fmt))
    skw = dict(kw)
    skw.setdefault("file_type", fmt)
    good = singles(UVData, files, skw)
    ctx.case(fmt, axis, [len(p) for p in parts], kinds, {k: str(v)[:40] for k, v in kw.items()}, opt, common.describe_uv(uv))

    def combine(obs):
        o = obs[0]
        if len(obs) == 1:
            return o
        if opt.get("axis"):
            o.fast_concat(obs[1:], axis, inplace=True)
            return o
        for x in obs[1:]:
            o = o + x
        return o

    def compare(r, want, ok):
        if opt.get("axis") or len(ok) == 1:
            # (what is derived on demand may not be there yet)
            d = canon.diff(canon.snap(want), r, exact=True, ignore={"filename", "blts_are_rectangular", "time_axis_faster_than_bls"})
            ctx.check(not d, lambda: f"{fmt} files read in one call with {opt} {list(kw)}: {d[:4]}")
        else:
            d = canon.dictdiff(canon.ledger(want), canon.ledger(r), exact=True)
            ctx.check(not d, lambda: f"{fmt} files read in one call with {opt} {list(kw)}: {d[:4]}")
            for o in ok:
                common.hist_kept(ctx, o.history.split("Read/written")[0].strip()[:30], r.history, fmt)
        common.sane(ctx, r, "list read", claims=True)

    r = judge(ctx, UVData, files, kw, opt, good, combine, compare, f"reading {len(files)} {fmt} files cut along {axis}")
    if r is None:
        return
    ctx.ev(fmt)
    ctx.ev("with_axis" if opt.get("axis") else "without_axis")
    if len(files) == 1:
        ctx.ev("one_file")
    if kw.get("read_data") is False:
        ctx.ev("metadata_only")
    ctx.check((r.data_array is None) == (kw.get("read_data") is False), "data read although not asked for, or not read")
    if any(x in kw for x in ("antenna_nums", "antenna_names", "bls", "ant_str", "times", "time_range", "lsts", "lst_range", "phase_center_ids", "catalog_names",
                             "frequencies", "freq_chans", "polarizations")):
        ctx.ev("selected")
        if any("damaged" not in str(g) and isinstance(g, ValueError) for g in good):
            ctx.ev("nothing_selected_in_one")
        for x in ("catalog_names", "phase_center_ids"):
            if x in kw:
                ctx.ev("sel_" + x)


def mir(ctx):
    rng = ctx.rng
    info, recs = c35.make(ctx, "a.mir", nint=int(rng.integers(2, 6)), small=True, mode=gen.pick(rng, ["single", "dual", "quirk", "full"]))
    ids = info["inhids"]
    at = ids[int(rng.integers(1, len(ids)))]
    files = []
    for i, q in enumerate((("inhid", "lt", at), ("inhid", "ge", at))):
        p, _ = quiet(c35.MirParser, info["dir"])
        quiet(p.select, where=[q])
        quiet(p.load_data, load_raw=True, load_cross=True)
        f = ctx.path(f"p{i}.mir")
        quiet(p.write, f)
        files.append(f)
    if rng.integers(2):
        files = files[::-1]
    kw = {"file_type": "mir"} if rng.integers(2) else {}
    for _ in range(int(rng.integers(0, 3))):
        k = gen.pick(rng, ["corrchunk", "receivers", "sidebands", "antenna_nums", "apply_tsys", "apply_flags", "pseudo_cont", "mir_select_where", "polarizations", "catalog_names", "freq_chans"])
        if k == "corrchunk":
            kw[k] = [int(x) for x in rng.permutation(info["chunks"])[: int(rng.integers(1, len(info["chunks"]) + 1))]]
        elif k == "receivers" and info["mode"] in ("dual", "quirk"):
            kw[k] = gen.pick(rng, ["230", "240"])
        elif k == "sidebands" and len(info["sbs"]) > 1:
            kw[k] = gen.pick(rng, ["l", "u"])
        elif k == "antenna_nums" and len(info["ants"]) > 2:
            kw[k] = sorted(rng.choice(info["ants"], len(info["ants"]) - 1, replace=False).tolist())
        elif k in ("apply_tsys", "apply_flags"):
            kw[k] = False
        elif k == "pseudo_cont" and "corrchunk" not in kw:
            kw[k] = True
        elif k == "mir_select_where":
            kw[k] = [("mjd", "gt", 0.0)] if rng.integers(2) else [("ant1", "eq", str(int(gen.pick(rng, info["ants"]))))]
        elif k == "polarizations":
            kw[k] = list({r["pol"] for r in recs})[:1]
        elif k == "catalog_names":
            kw[k] = gen.pick(rng, info["names"])
        elif k == "freq_chans":
            kw[k] = [0, 1]
    if "corrchunk" in kw:
        kw.pop("pseudo_cont", None)
    opt = {}
    if rng.integers(3) == 0:
        opt["axis"] = "blt"
    if rng.integers(2):
        opt["skip_bad_files"] = True
    good = singles(UVData, files, kw)
    ctx.case("mir", info["mode"], {k: str(v)[:40] for k, v in kw.items()}, opt, info["mjd"][0])

    def combine(obs):
        o = obs[0]
        if opt.get("axis") and len(obs) > 1:
            o.fast_concat(obs[1:], "blt", inplace=True)
            return o
        for x in obs[1:]:
            o = o + x
        return o

    def compare(r, want, ok):
        d = canon.dictdiff(canon.ledger(want), canon.ledger(r), exact=True)
        ctx.check(not d, lambda: f"mir files read in one call with {kw} {opt}: {d[:4]}")

    r = judge(ctx, UVData, files, kw, opt, good, combine, compare, "reading 2 mir files")
    if r is None:
        return
    ctx.ev("mir")
    for k in ("receivers", "sidebands", "corrchunk"):
        if k in kw:
            ctx.ev("mir_" + k)


def mwa(ctx):
    """sets of correlator files: one list of files per set"""
    rng = ctx.rng
    mwax = bool(rng.integers(2))
    o = c36.observation(rng, mwax, ncoarse=int(rng.integers(2, 4)))
    nf = int(rng.integers(1, 3))
    files, meta = c36.layout(ctx, o, nf, only=2)
    o["names"] = files
    opt = c36.options(rng, o)
    opt.pop("start_flag", None)
    opt["start_flag"] = 0.0
    groups = {}
    for f in files:
        if f == meta:
            continue
        b = os.path.basename(f)
        key = b.split("_")[2]
        groups.setdefault(key, []).append(f)
    if len(groups) != 2:
        raise Skip("one coarse channel")
    sets = [[meta, *g] for g in groups.values()]
    if len({len(o["present"][c]) for c in o["have"]}) > 1:
        raise Skip("different times")
    ctx.case("mwa", mwax, o["nc"], tuple(o["have"]), nf, tuple(sorted((k, str(v)) for k, v in opt.items())))
    c36.site()
    ones = []
    for s in sets:
        u = UVData()
        try:
            quiet(u.read, s, **opt)
        except ValueError as e:
            raise Skip(f"single set refused: {str(e)[:60]}") from e
        ones.append(u)
    ax = gen.pick(rng, [None, "freq"])
    kw = dict(opt)
    if ax:
        kw["axis"] = ax
    if rng.integers(2):
        kw["file_type"] = "mwa_corr_fits"
    if rng.integers(2):
        kw["skip_bad_files"] = True
    try:
        if ax:
            want, _ = quiet(ones[0].fast_concat, ones[1:], "freq")
        else:
            want, _ = quiet(lambda: ones[0] + ones[1])
    except ValueError as e:
        raise Skip(f"not combinable {str(e)[:60]}") from e
    r = UVData()
    quiet(r.read, sets if rng.integers(2) else tuple(sets), **kw)
    if ax:
        d = canon.diff(canon.snap(want), r, exact=True, ignore={"filename"})
    else:
        d = canon.dictdiff(canon.ledger(want), canon.ledger(r), exact=True)
    ctx.check(not d, lambda: f"two sets of MWA files read in one call: {d[:4]}")
    ctx.ev("mwa")


def fhd(ctx):
    """every FHD dataset is read with its own files (the reader itself is replaced by a recorder)"""
    rng = ctx.rng
    uv = gen.make_uvdata(rng, nbl=int(rng.integers(1, 4)), kinds=["sidereal"])
    ut = np.unique(uv.time_array)
    parts = cut(rng, len(ut), int(rng.integers(2, 5)))
    n = len(parts)
    objs = [uv.select(times=ut[p], inplace=False) for p in parts]
    sets = [[f"/nowhere/o{i}_vis_XX.sav", f"/nowhere/o{i}_vis_YY.sav"] for i in range(n)]
    given = {}
    for k in ("params_file", "obs_file", "flags_file", "layout_file", "settings_file"):
        if k == "params_file" or rng.integers(3):
            given[k] = [f"/nowhere/o{i}_{k}" for i in range(n)]
    broken = set(rng.permutation(n)[: int(rng.integers(0, n))].tolist()) if rng.integers(3) == 0 else set()
    calls = []

    def stub(self, vis_files, *, params_file, **kw):
        calls.append((list(vis_files), params_file, {k: kw.get(k) for k in ("obs_file", "flags_file", "layout_file", "settings_file")}))
        i = int(os.path.basename(vis_files[0])[1:].split("_")[0])
        if i in broken:
            raise OSError("broken")
        o = objs[i].copy()
        for p in o:
            setattr(self, p, getattr(o, p))

    ctx.case("fhd", n, sorted(given), sorted(broken), common.describe_uv(uv))
    old = UVData.read_fhd
    UVData.read_fhd = stub
    try:
        r = UVData()
        quiet(r.read, sets, skip_bad_files=bool(broken), **{k: v if rng.integers(2) else tuple(v) for k, v in given.items()})
    finally:
        UVData.read_fhd = old
    ctx.check(sorted(c[0] for c in calls) == sorted(sets), f"datasets read: {[c[0] for c in calls]}")
    for vis, par, rest in calls:
        i = int(os.path.basename(vis[0])[1:].split("_")[0])
        rest["params_file"] = par
        for k, v in rest.items():
            w = given[k][i] if k in given else None
            ctx.check(v == w, f"dataset {i} of {n} FHD datasets is read with {k}={v} instead of {w}", "fhd-files")
    keep = [o for i, o in enumerate(objs) if i not in broken]
    want = keep[0]
    for o in keep[1:]:
        want = want + o
    d = canon.dictdiff(canon.ledger(want), canon.ledger(r), exact=True)
    ctx.check(not d, lambda: f"FHD datasets read in one call: {d[:4]}")
    ctx.ev("fhd_routing")


def cal(ctx):
    rng = ctx.rng
    fmt = gen.pick(rng, ["calh5", "calh5", "calfits"])
    kw = dict(nspw=1, wide=False, even_freq=True, spw_ids=[0], catalog=False, scan=False, uniform_time=True) if fmt == "calfits" else {}
    c = gen.make_uvcal(rng, nants=int(rng.integers(2, 5)), ntimes=int(rng.integers(1, 5)), **kw)
    if fmt == "calfits":
        c.integration_time[:] = 10.0
        if c.ref_antenna_array is not None:
            c.ref_antenna_array = None
            c.ref_antenna_name = str(c.telescope.antenna_names[0])
        if not (c.Njones < 2 or len(np.unique(np.diff(c.jones_array))) == 1):
            raise Skip("uneven jones")
    axes = {"time": ("ti", c.Ntimes), "antenna": ("ai", c.Nants_data), "jones": ("ji", c.Njones), ("spw" if c.wide_band else "freq"): ("fi", len(cc.fkeys(c)))}
    axis = gen.pick(rng, sorted(axes))
    key, n = axes[axis]
    parts = cut(rng, n, int(rng.integers(1, 5)))
    if fmt == "calfits" and axis in ("time", "freq"):
        pass
    files = []
    for i, p in enumerate(parts):
        f = ctx.path(f"c{i}.{fmt}")
        try:
            quiet(getattr(cal_take(c, **{key: p}), "write_" + fmt), f)
        except ValueError as e:
            raise Skip("the piece does not fit the format") from e
        files.append(f)
    if axis != "freq":
        files = [files[i] for i in rng.permutation(len(files))]
    k = {}
    for _ in range(int(rng.integers(0, 3))):
        s = gen.pick(rng, ["antenna_nums", "antenna_names", "freq_chans", "frequencies", "spws", "times", "time_range", "jones", "catalog_names", "phase_center_ids", "read_data", "lsts"])
        ants = c.ant_array.tolist()
        names = dict(zip(c.telescope.antenna_numbers.tolist(), c.telescope.antenna_names))
        if s in ("antenna_nums", "antenna_names") and not {"antenna_nums", "antenna_names"} & set(k):
            a = [int(x) for x in rng.choice(ants, int(rng.integers(1, len(ants) + 1)), replace=False)]
            k[s] = a if s == "antenna_nums" else [str(names[x]) for x in a]
        elif s == "freq_chans" and not c.wide_band and axis != "freq" and "frequencies" not in k:
            k[s] = [0]
        elif s == "frequencies" and not c.wide_band and axis != "freq" and "freq_chans" not in k:
            k[s] = c.freq_array[: int(rng.integers(1, c.Nfreqs + 1))]
        elif s == "spws" and c.wide_band:
            k[s] = [int(c.spw_array[0])]
        elif s == "times" and c.time_array is not None and "time_range" not in k and "lsts" not in k:
            k[s] = c.time_array[: int(rng.integers(1, c.Ntimes + 1))]
        elif s == "lsts" and c.lst_array is not None and fmt == "calh5" and not {"times", "time_range"} & set(k):
            k[s] = c.lst_array[: int(rng.integers(1, c.Ntimes + 1))]
        elif s == "time_range" and "times" not in k and "lsts" not in k:
            t = c.time_array if c.time_array is not None else c.time_range.mean(1)
            k[s] = [float(t.min()) - 1e-4, float(np.sort(t)[int(rng.integers(len(t)))]) + 1e-4]
        elif s == "jones" and axis != "jones":
            k[s] = [int(c.jones_array[0])]
        elif s == "catalog_names" and c.phase_center_catalog is not None and fmt == "calh5" and "phase_center_ids" not in k:
            k[s] = [c.phase_center_catalog[int(c.phase_center_id_array[0])]["cat_name"]]
        elif s == "phase_center_ids" and c.phase_center_catalog is not None and fmt == "calh5" and "catalog_names" not in k:
            k[s] = [int(c.phase_center_id_array[0])]
        elif s == "read_data" and rng.integers(3) == 0:
            k[s] = False
    opt = {}
    if rng.integers(2):
        opt["axis"] = axis
    if rng.integers(3) == 0:
        opt["file_type"] = fmt
    good = singles(UVCal, files, k)
    ctx.case(fmt, axis, [len(p) for p in parts], {a: str(v)[:40] for a, v in k.items()}, opt, *cc.describe(c))

    def combine(obs):
        o = obs[0]
        if len(obs) == 1:
            return o
        if opt.get("axis"):
            o.fast_concat(obs[1:], axis, inplace=True)
            return o
        for x in obs[1:]:
            o = o + x
        return o

    def compare(r, want, ok):
        what = f"{fmt} files cut along {axis} read in one call with {opt} {list(k)}"
        if opt.get("axis") or len(ok) == 1:
            d = canon.diff(canon.snap(want), r, exact=True, ignore={"filename"})
            ctx.check(not d, lambda: f"{what}: {d[:4]}")
            return
        for m, nm in ((cc.tmeta, "times"), (cc.fmeta, "channels")):
            d = cc.mdiff(m(want), m(r))
            ctx.check(d is None, lambda: f"{what}: {nm} {d}")
        if not want.metadata_only:
            w, g = cc.sol(want), cc.sol(r)
            for a, b in zip(w, g):
                d = cc.soldiff(a, b)
                ctx.check(d is None, lambda: f"{what}: {d}")
        ctx.check(sorted(r.ant_array.tolist()) == sorted(want.ant_array.tolist()) and sorted(r.jones_array.tolist()) == sorted(want.jones_array.tolist()), f"{what}: axes differ")
        ctx.check(not cc.counts(r), f"{what}: {cc.counts(r)}")

    r = judge(ctx, UVCal, files, k, opt, good, combine, compare, f"reading {len(files)} {fmt} files")
    if r is None:
        return
    ctx.ev(fmt)
    if opt.get("axis"):
        ctx.ev("cal_axis")
    if set(k) - {"read_data"}:
        ctx.ev("cal_selected")


def beam(ctx):
    rng = ctx.rng
    b = gen.make_beam(rng, nfreq=int(rng.integers(1, 6)), asc=True, pols=[-5, -6], nfeeds=2)
    if b.beam_type == "efield":
        b.feed_array = np.sort(b.feed_array)
    parts = cut(rng, b.Nfreqs, int(rng.integers(1, 5)))
    files = []
    for i, p in enumerate(parts):
        f = ctx.path(f"b{i}.fits" if rng.integers(2) else f"b{i}.beamfits")
        try:
            quiet(b.select(freq_chans=p, inplace=False).write_beamfits, f)
        except ValueError as e:
            raise Skip("the piece does not fit the format") from e
        files.append(f)
    files = [files[i] for i in rng.permutation(len(files))]
    kw, kinds, opt = {}, [], {}
    if rng.integers(3) == 0:
        i, j = np.sort(rng.integers(0, b.Nfreqs, 2))
        kw["freq_range"] = [float(b.freq_array[i]) - 1.0, float(b.freq_array[j]) + 1.0]
    if b.pixel_coordinate_system == "az_za" and rng.integers(3) == 0:
        kw["za_range"] = [0.0, float(np.rad2deg(b.axis2_array[int(rng.integers(b.Naxes2))])) + 1e-3]
    if rng.integers(3) == 0:
        for i in rng.permutation(len(files))[: int(rng.integers(1, len(files) + 1))]:
            kinds.append(damage(rng, files[i], "beamfits"))
    if kinds or rng.integers(3) == 0:
        if rng.integers(4):
            opt["skip_bad_files"] = True
    good = singles(UVBeam, files, kw)
    ctx.case("beamfits", [len(p) for p in parts], kinds, kw, opt, *bc.describe(b))

    def combine(obs):
        o = obs[0]
        for x in obs[1:]:
            o = o + x
        return o

    def compare(r, want, ok):
        order = np.argsort(want.freq_array)
        o2 = np.argsort(r.freq_array)
        w, g = canon.snap(bc.take(want, fi=order) if False else want), canon.snap(r)
        if len(ok) < 3:
            d = canon.diff(w, r, exact=True, ignore={"filename", "history"})
            ctx.check(not d, lambda: f"beam files read in one call {opt} {kw}: {d[:4]}")
        else:
            ctx.check(np.array_equal(want.freq_array[order], r.freq_array[o2]), "frequencies differ")
            ctx.check(np.array_equal(want.data_array[..., order, :, :] if False else np.take(want.data_array, order, axis=2), np.take(r.data_array, o2, axis=2)), "responses differ")
            ctx.check(np.array_equal(want.bandpass_array[order], r.bandpass_array[o2]), "bandpass differs")
            d = canon.diff(w, r, exact=True, ignore={"filename", "history", "data_array", "freq_array", "bandpass_array", "receiver_temperature_array", "loss_array", "mismatch_array", "s_parameters"})
            ctx.check(not d, lambda: f"beam files read in one call {opt} {kw}: {d[:4]}")

    r = judge(ctx, UVBeam, files, kw, opt, good, combine, compare, f"reading {len(files)} beam files", known_name="beam-list-names-wrong-unreadable-file")
    if r is None:
        return
    ctx.ev("beamfits")
    if kinds:
        ctx.ev("skipped_in_beams")
    if kw:
        ctx.ev("beam_range")


def flag(ctx):
    rng = ctx.rng
    u = gen.make_uvflag(rng, type=gen.pick(rng, ["antenna", "waterfall", "baseline"]))
    ut = np.unique(u.time_array)
    parts = cut(rng, len(ut), int(rng.integers(1, 4)))
    files = []
    older = rng.integers(3) == 0
    for i, p in enumerate(parts):
        ix = np.nonzero(np.isin(u.time_array, ut[p]))[0]
        q = flag_take(u, **({"ri": ix} if u.type == "baseline" else {"ti": ix}))
        f = ctx.path(f"u{i}.h5")
        quiet(q.write, f)
        if older:
            with h5py.File(f, "a") as h:
                for n in ("telescope_name",):
                    if n in h["Header"]:
                        del h["Header"][n]
        files.append(f)
    kw = {}
    if rng.integers(2):
        kw["history"] = f" read for case {int(rng.integers(1000))} "
    if older:
        kw["telescope_name"] = str(u.telescope.name)
        ctx.ev("flag_older")
    ctx.case("uvflag", u.type, u.mode, [len(p) for p in parts], sorted(kw), *fc.describe(u))
    ones = []
    for f in files:
        o = UVFlag()
        try:
            quiet(o.read, f, **kw)
        except ValueError as e:
            raise Skip(f"{str(e)[:60]}") from e
        ones.append(o)
    want = copy.deepcopy(ones[0])
    try:
        for o in ones[1:]:
            want, _ = quiet(lambda: want + o)
    except ValueError as e:
        raise Skip("the baselines differ") from e
    arg = list(files) if rng.integers(2) else tuple(files)
    if rng.integers(2):
        r, _ = quiet(lambda: UVFlag(arg, **kw))
    else:
        r = UVFlag()
        quiet(r.read, arg, **kw)
    d = canon.diff(canon.snap(want), r, exact=True, ignore={"history", "filename"})
    ctx.check(not d, lambda: f"flag files read in one call: {d[:4]}")
    if "history" in kw:
        ctx.check(kw["history"].strip() in r.history, f"the history given ({kw['history']}) is not in the history of {len(files)} files read in one call")
    ctx.check(u.history.strip()[:20] in r.history, "history lost")
    ctx.ev("uvflag")


SCENARIOS = [
    Scenario("uvd", uvd, 500, 8000),
    Scenario("mir", mir, 160, 2000),
    Scenario("mwa", mwa, 24, 300),
    Scenario("fhd", fhd, 60, 500),
    Scenario("cal", cal, 400, 4000),
    Scenario("beam", beam, 300, 3000),
    Scenario("flag", flag, 200, 2000),
]
