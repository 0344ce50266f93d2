"""C35 SMA MIR data are read, selected and written consistently."""
import os
import shutil
import warnings

import numpy as np
from astropy.time import Time

from pyuvdata import UVData
from pyuvdata.data import DATA_PATH
from pyuvdata.uvdata import mir_meta_data as mm
from pyuvdata.uvdata.mir_parser import MirParser
from vmon import gen
from vmon.core import Scenario, Skip

RULE = (
    "synthetic MIR datasets written record by record (receivers, sidebands, tunings, windows, sources, missing records, shuffled record positions, flagged channels, bad system temperatures); "
    "every spectrum on a UVData object is compared with the record it came from, and parser histories of select, reset, saved masks, load, rechunk, write, re-read and addition are followed on a shadow table. "
    "non-trivial = distinct (layout, options, history)"
)
REQUIRED = ["read", "dual", "split_flex", "split_noflex", "full_pol", "quirk", "missing_bl", "missing_sp", "shuffled", "tsys", "raw_corr", "bad_tsys", "apply_flags", "keep_flags", "rechunk_read", "pseudo_cont", "many_ints", "gap_ids", "uvw",
            "sel_ant", "sel_name", "sel_bl", "sel_time", "sel_pol", "sel_source", "sel_chunk", "sel_rec", "sel_sb", "sel_where", "hist_select", "hist_or", "hist_reset", "hist_mask", "hist_load_vis", "hist_load_raw", "hist_rechunk", "hist_write", "hist_append", "hist_add", "hist_merge", "hist_tsys", "hist_meta", "recode", "lst_range"]
SAMPLE = os.path.join(DATA_PATH, "sma_test.mir")
POLS = ["hh", "vv", "hv", "vh"]
POLNUM = {"hh": -5, "vv": -6, "hv": -7, "vh": -8}
RX = {"hh": (0, 0), "vv": (1, 1), "hv": (0, 1), "vh": (1, 0)}
TEMPLATES = {}


def template(name, dtype):
    if name not in TEMPLATES:
        TEMPLATES[name] = np.fromfile(os.path.join(SAMPLE, name), dtype=dtype)
    return TEMPLATES[name]


def blcode(a, b):
    return [(i, j) for i in range(1, 9) for j in range(i + 1, 9)].index((a, b))


def make(ctx, name, nint=None, recode=False, t0=None, first_sphid=1, first_inhid=None, mode=None, small=False):
    """write a dataset; returns its directory and the list of spectral records"""
    rng = ctx.rng
    d = ctx.path(name)
    os.makedirs(d)
    shutil.copy(os.path.join(SAMPLE, "antennas"), d)
    nint = nint or int(gen.pick(rng, [1, 2, 3, 5, 9, 12, 17]))
    ants = sorted(rng.choice(np.arange(1, 9), int(rng.integers(2, 4 if small else 5)), replace=False).tolist())
    mode = mode or gen.pick(rng, ["single", "dual", "dual", "quirk", "split", "full", "full_quirk"])
    pols = {"single": ["hh"], "dual": ["hh", "vv"], "quirk": ["hh", "vv"], "split": ["hh", "vv"], "full": POLS, "full_quirk": POLS}[mode]
    sbs = gen.pick(rng, [[0], [1], [0, 1], [0, 1]])
    nwin = int(rng.integers(1, 4))
    chunks = sorted(rng.choice(np.arange(1, 5), nwin, replace=False).tolist())
    nch = {c: int(gen.pick(rng, [4, 8, 16, 32])) for c in chunks}
    nch[0] = 4
    nsrc = int(rng.integers(1, 4))
    names = [f"src{k}{'ABCxyz'[int(rng.integers(6))]}" for k in range(nsrc)]
    codes_src = {s: int(c) for s, c in zip(names, (rng.permutation(20)[:nsrc] + 1 if recode else np.arange(1, nsrc + 1)))}
    radec = {s: (rng.uniform(0.1, 6.1), rng.uniform(-1.2, 1.2)) for s in names}
    miss_bl = rng.random() < 0.3
    miss_sp = rng.random() < 0.3
    shuf = rng.random() < 0.3
    gap = rng.random() < 0.5
    inhids = np.sort(rng.choice(np.arange(1, 4 * nint + 1), nint, replace=False)) if gap else np.arange(1, nint + 1)
    if first_inhid is not None:
        inhids = inhids - inhids[0] + first_inhid
    t0 = (59054.0 + rng.uniform(0, 1)) if t0 is None else t0
    mjd = t0 + np.arange(nint) * 30.0 / 86400 + np.cumsum(rng.uniform(0, 1e-4, nint))
    rint = np.float32(rng.uniform(5, 30))
    good_lst = rng.integers(2)
    ind = np.repeat(template("in_read", mm.in_dtype), nint)
    src = [names[0]] + [gen.pick(rng, names) for _ in range(nint - 1)]
    for k in range(nint):
        r = ind[k]
        r["inhid"] = r["ints"] = inhids[k]
        r["mjd"] = mjd[k]
        r["rinteg"] = rint
        r["isource"] = codes_src[src[k]]
        r["souid"] = r["isource"]
        r["iut"] = k + 1
        r["rar"], r["decr"] = radec[src[k]]
        r["ara"], r["adec"] = radec[src[k]][0] + 0.004, radec[src[k]][1] + 0.001
        r["ira"] = r["idec"] = r["isource"]
        r["lst"] = rng.uniform(0, 24)
    if good_lst:
        u = UVData()
        from pyuvdata import utils
        from pyuvdata.telescopes import known_telescope_location

        jd = Time(mjd, format="mjd", scale="tt").utc.jd
        ind["lst"] = utils.get_lst_for_time(jd, telescope_loc=known_telescope_location("SMA")) * 12 / np.pi
    base = {(p, s): 230.0 + 8.0 * s + (3.7 if (mode == "split" and p == "vv") else 0) for p in pols for s in sbs}
    eng = np.repeat(template("eng_read", mm.eng_dtype)[:1], nint * len(ants))
    tsys = {}
    k = 0
    for i in inhids:
        for a in ants:
            e = eng[k]
            e["antenna"], e["inhid"], e["ints"] = a, i, i
            for rx, f in ((0, "tsys"), (1, "tsys_rx2")):
                v = rng.uniform(50, 400)
                if rng.random() < 0.04:
                    v = gen.pick(rng, [0.0, -5.0, 2e5])
                    ctx.ev("bad_tsys")
                e[f] = v
                tsys[i, a, rx] = v
            k += 1
    bl_t, sp_t = template("bl_read", mm.bl_dtype)[0], template("sp_read", mm.sp_dtype)[0]
    BL, SP, recs = [], [], []
    blhid, sphid = 0, first_sphid - 1
    sch = b""
    fres = {(c, s): np.float32((-1 if (c + s) % 2 else 1) * (2000.0 if c == 0 else gen.pick(rng, [0.5, 0.140625, 4.0]))) for c in [0] + chunks for s in sbs}
    fsky = {(c, s, p): base[p, s] + 0.5 * c + round(rng.uniform(-0.1, 0.1), 4) for c in [0] + chunks for s in sbs for p in pols}
    if mode != "split":
        for c in [0] + chunks:
            for s in sbs:
                for p in pols:
                    fsky[c, s, p] = fsky[c, s, pols[0]]
    uvws = {}
    # records never dropped: those of the first integration, so that every window and pol is there
    for i, hid in enumerate(inhids):
        mine = []
        for a in ants:
            for b in ants:
                if b <= a:
                    continue
                dropbl = miss_bl and i > 0 and rng.random() < 0.2
                uvws[i, a, b] = rng.uniform(-200, 200, 3).astype(np.float32)
                for s in sbs:
                    for p in pols:
                        if dropbl or (miss_bl and i > 0 and rng.random() < 0.1):
                            ctx.ev("missing_bl")
                            continue
                        blhid += 1
                        r = bl_t.copy()
                        r["blhid"], r["inhid"], r["isb"] = blhid, hid, s
                        r["ant1rx"], r["ant2rx"] = RX[p]
                        r["ipol"] = 0 if mode.endswith("quirk") else POLS.index(p)
                        r["irec"] = 0 if RX[p][0] == 0 else 3
                        r["u"], r["v"], r["w"] = uvws[i, a, b]
                        r["iant1"], r["iant2"] = a, b
                        r["iblcd"] = blcode(a, b)
                        BL.append(r)
                        for c in [0] + chunks:
                            if miss_sp and i > 0 and c and rng.random() < 0.1:
                                ctx.ev("missing_sp")
                                continue
                            sphid += 1
                            q = sp_t.copy()
                            q["sphid"], q["blhid"], q["inhid"] = sphid, blhid, hid
                            q["iband"] = q["corrchunk"] = c
                            q["corrblock"] = int(c > 0)
                            q["fsky"], q["fres"], q["nch"] = fsky[c, s, p], fres[c, s], nch[c]
                            q["flags"] = int(rng.random() < 0.1) * int(rng.integers(1, 100))
                            q["wt"] = rng.uniform(1e-3, 1e-2)
                            q["integ"] = rint
                            q["vres"] = rng.uniform(0.1, 1)
                            sc = int(rng.integers(-20, -8))
                            v = rng.integers(-32767, 32768, (nch[c], 2))
                            v[rng.random(nch[c]) < gen.pick(rng, [0.0, 0.1, 0.5])] = -32768
                            fl = v[:, 0] == -32768
                            x = (v[:, 0] + 1j * v[:, 1]) * 2.0**sc
                            x[fl] = 0
                            mine.append((q, sc, v))
                            recs.append(dict(sphid=sphid, blhid=blhid, inhid=int(hid), mjd=mjd[i], t=i, a=a, b=b, sb=s, pol=p, c=c, fsky=fsky[c, s, p], fres=float(fres[c, s]), nch=nch[c], flags=int(q["flags"]), wt=float(q["wt"]), src=src[i], data=x, fl=fl,
                                             wts=(~fl).astype(float), uvw=uvws[i, a, b], rint=float(rint), tsys=(tsys[hid, a, RX[p][0]], tsys[hid, b, RX[p][1]]), irec=int(r["irec"]), vres=float(q["vres"]), lst=float(ind[i]["lst"]), scale=sc, app=(float(ind[i]["ara"]), float(ind[i]["adec"]))))
                            SP.append(q)
        order = rng.permutation(len(mine)) if shuf else np.arange(len(mine))
        if shuf:
            ctx.ev("shuffled")
        buf, off = b"", 0
        for k in order:
            q, sc, v = mine[k]
            q["dataoff"] = off
            rec = np.concatenate([[sc], v.ravel()]).astype("<i2").tobytes()
            buf += rec
            off += len(rec)
        sch += np.array([hid, len(buf)], dtype="<i4").tobytes() + buf
    for q, (n, dt) in zip((ind, np.array(BL, dtype=mm.bl_dtype), np.array(SP, dtype=mm.sp_dtype), eng), (("in_read", 0), ("bl_read", 0), ("sp_read", 0), ("eng_read", 0))):
        q.tofile(os.path.join(d, n))
    we = np.repeat(template("we_read", mm.we_dtype)[:1], nint)
    we["ints"] = inhids
    we["N"] = rng.uniform(200, 300, we["N"].shape)
    we.tofile(os.path.join(d, "we_read"))
    cb = template("codes_read", mm.codes_binary_dtype)
    cb = cb[~np.isin(cb["v_name"], [b"source", b"ut", b"ra", b"dec", b"stype", b"svtype"])]
    extra = []
    for s, c in codes_src.items():
        extra += [("source", c, s), ("ra", c, f"{radec[s][0]:.6f}"), ("dec", c, f"{radec[s][1]:.6f}"), ("stype", c, "sidereal"), ("svtype", c, "lsr")]
    extra += [("ut", k + 1, Time(mjd[k], format="mjd").strftime("%b %d %Y %H:%M:%S.%f")[:26]) for k in range(nint)]
    np.concatenate([cb, np.array([(n.encode(), c, v.encode(), 0) for n, c, v in extra], dtype=mm.codes_binary_dtype)]).tofile(os.path.join(d, "codes_read"))
    with open(os.path.join(d, "sch_read"), "wb") as f:
        f.write(sch)
    ctx.ev({"single": "single", "dual": "dual", "quirk": "quirk", "split": "split", "full": "full_pol", "full_quirk": "quirk"}[mode])
    if nint > 8:
        ctx.ev("many_ints")
    if gap:
        ctx.ev("gap_ids")
    info = dict(dir=d, ants=ants, mode=mode, pols=pols, sbs=sbs, chunks=chunks, nch=nch, names=names, inhids=[int(h) for h in inhids], mjd=mjd, radec=radec, good_lst=good_lst)
    ctx.case(name, mode, ants, sbs, chunks, sorted(nch.items()), nint, names, miss_bl, miss_sp, shuf, gap)
    return info, recs


def norm(r):
    t1, t2 = r["tsys"]
    ok = 0 < t1 < 1e5 and 0 < t2 < 1e5
    return 2.0 * 130.0 * np.sqrt(t1 * t2) if ok else 0.0


def averaged(r, n):
    """mean over n unflagged channels"""
    if n == 1 or r["c"] == 0:
        return r
    fl = r["fl"].reshape(-1, n)
    w = np.where(fl, 0, r["wts"].reshape(-1, n))
    s = w.sum(1)
    x = (r["data"].reshape(-1, n) * w).sum(1)
    x = np.divide(x, s, out=np.zeros_like(x), where=s > 0)
    o = dict(r)
    o.update(data=x, fl=s == 0, wts=s / n, nch=r["nch"] // n, fres=r["fres"] * n, vres=r["vres"] * n)
    return o


def calibrated(r, tsys=True):
    """data, flags, weights in Jy"""
    x, fl, w = r["data"].copy(), r["fl"].copy(), r["wts"].copy()
    if tsys:
        f = norm(r)
        if f == 0:
            fl[:] = True
        else:
            x *= f
            w *= abs(r["fres"]) * 1e6 * r["rint"] / f**2
    return x, fl, w


def spw_id(r, split):
    i = 255 if r["c"] == 0 else r["c"]
    if r["sb"] == 0:
        i = -i
    return i + (512 if split and r["pol"] == "vv" else 0)


def quiet(fn, *a, **k):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return fn(*a, **k)


def read(ctx):
    rng = ctx.rng
    info, recs = make(ctx, "a.mir")
    kw, sel = {}, recs
    used = set()
    for _ in range(int(rng.integers(0, 4))):
        k = gen.pick(rng, ["ant", "name", "bl", "time", "pol", "source", "chunk", "rec", "sb", "where"])
        if k in used or "select_where" in kw:
            continue
        used.add(k)
        if k == "ant" and len(info["ants"]) > 2:
            a = sorted(rng.choice(info["ants"], len(info["ants"]) - 1, replace=False).tolist())
            if "antenna_names" in kw:
                continue
            kw["antenna_nums"] = a
            sel = [r for r in sel if r["a"] in a and r["b"] in a]
        elif k == "name" and len(info["ants"]) > 2 and "antenna_nums" not in kw:
            a = sorted(rng.choice(info["ants"], len(info["ants"]) - 1, replace=False).tolist())
            kw["antenna_names"] = [f"Ant{x}" if rng.integers(2) else str(x) for x in a]
            sel = [r for r in sel if r["a"] in a and r["b"] in a]
        elif k == "bl":
            prs = sorted({(r["a"], r["b"]) for r in sel})
            if len(prs) < 2:
                continue
            c = [prs[i] for i in rng.permutation(len(prs))[: int(rng.integers(1, len(prs)))]]
            kw["bls"] = [(int(b), int(a)) if rng.integers(2) else (int(a), int(b)) for a, b in c]
            sel = [r for r in sel if (r["a"], r["b"]) in c]
        elif k == "time" and len(info["mjd"]) > 2:
            i0, i1 = sorted(rng.integers(0, len(info["mjd"]), 2).tolist())
            jd = Time(np.array([info["mjd"][i0] - 1e-5, info["mjd"][i1] + 1e-5]), format="mjd", scale="tt").utc.jd
            kw["time_range"] = [float(jd[0]), float(jd[1])]
            sel = [r for r in sel if i0 <= r["t"] <= i1]
        elif k == "pol" and not info["mode"].endswith("quirk") and len(info["pols"]) > 1:
            p = [info["pols"][i] for i in rng.permutation(len(info["pols"]))[: int(rng.integers(1, len(info["pols"])))]]
            kw["polarizations"] = p if rng.integers(2) else [POLNUM[x] for x in p]
            sel = [r for r in sel if r["pol"] in p]
        elif k == "source" and len(info["names"]) > 1:
            s = gen.pick(rng, info["names"])
            kw["catalog_names"] = s if rng.integers(2) else [s]
            sel = [r for r in sel if r["src"] == s]
        elif k == "chunk":
            c = [[0] + info["chunks"]][0]
            c = [c[i] for i in rng.permutation(len(c))[: int(rng.integers(1, len(c) + 1))]]
            kw["corrchunk"] = c
            sel = [r for r in sel if r["c"] in c]
        elif k == "rec" and info["mode"] != "single":
            w = gen.pick(rng, ["230", "240"])
            kw["receivers"] = w if rng.integers(2) else [w]
            sel = [r for r in sel if r["irec"] == (0 if w == "230" else 3)]
        elif k == "sb" and len(info["sbs"]) > 1:
            w = int(rng.integers(2))
            kw["sidebands"] = "lu"[w]
            sel = [r for r in sel if r["sb"] == w]
        elif k == "where" and not kw:
            a = gen.pick(rng, info["ants"])
            kw["select_where"] = [("source", "eq", info["names"][0]), ("ant1", "eq", str(a))]
            sel = [r for r in sel if r["src"] == info["names"][0] and r["a"] == a]
        else:
            continue
    if "corrchunk" not in kw and "select_where" not in kw:
        kw["pseudo_cont"] = bool(rng.integers(2))
        if not kw["pseudo_cont"]:
            sel = [r for r in sel if r["c"]]
        else:
            ctx.ev("pseudo_cont")
    if not sel:
        raise Skip("nothing selected")
    for k, e in (("antenna_nums", "sel_ant"), ("antenna_names", "sel_name"), ("bls", "sel_bl"), ("time_range", "sel_time"), ("polarizations", "sel_pol"), ("catalog_names", "sel_source"), ("corrchunk", "sel_chunk"), ("receivers", "sel_rec"), ("sidebands", "sel_sb"), ("select_where", "sel_where")):
        if k in kw:
            ctx.ev(e)
    kw["apply_tsys"] = bool(rng.integers(3))
    kw["apply_flags"] = bool(rng.integers(3))
    ctx.ev("tsys" if kw["apply_tsys"] else "raw_corr")
    ctx.ev("apply_flags" if kw["apply_flags"] else "keep_flags")
    n = 1
    if rng.integers(3) == 0:
        kw["rechunk"] = n = int(gen.pick(rng, [2, 4]))
        ctx.ev("rechunk_read")
    # two sets of receivers observe different tunings when neither set of windows contains the other
    ha = {(r["fsky"], r["c"]) for r in sel if r["pol"] == "hh"}
    hb = {(r["fsky"], r["c"]) for r in sel if r["pol"] == "vv"}
    pset = {r["pol"] for r in sel}
    split = pset == {"hh", "vv"} and not (ha <= hb or hb <= ha)
    flex = split and bool(rng.integers(2))
    if split:
        kw["allow_flex_pol"] = flex
        ctx.ev("split_flex" if flex else "split_noflex")
    ctx.log(kw)
    given = list(kw["select_where"]) if "select_where" in kw else None
    u = UVData()
    quiet(u.read_mir, info["dir"], **kw)
    if given is not None:
        ctx.check(kw["select_where"] == given, lambda: f"read_mir changed the select_where list given: {given} -> {kw['select_where']}", "arg-changed")
    ctx.ev("read")
    # ---- the expected object
    blts = sorted({(r["inhid"], r["a"], r["b"]) for r in sel})
    ctx.check(u.Nblts == len(blts), lambda: f"{u.Nblts} records instead of {len(blts)} ({kw})", "nblts")
    ctx.check(u.Nbls == len({(a, b) for _, a, b in blts}), lambda: f"Nbls {u.Nbls}", "nbls")
    ctx.check(u.Ntimes == len({i for i, _, _ in blts}), lambda: f"Ntimes {u.Ntimes}", "ntimes")
    got = list(zip(u.ant_1_array.tolist(), u.ant_2_array.tolist()))
    ctx.check(got == [(a, b) for _, a, b in blts], lambda: f"baselines {got[:5]} instead of {blts[:5]}", "baselines")
    ids = sorted({spw_id(r, split) for r in sel})
    ctx.check(list(u.spw_array) == ids, lambda: f"windows {u.spw_array} instead of {ids}", "windows")
    sel = [averaged(r, n) for r in sel]
    byid = {}
    for r in sel:
        byid.setdefault(spw_id(r, split), r)
    f = np.concatenate([byid[i]["fsky"] * 1e9 - np.sign(byid[i]["fres"]) * 139648.4375 + byid[i]["fres"] * 1e6 * (np.arange(byid[i]["nch"]) + 0.5 - byid[i]["nch"] / 2) for i in ids])
    ctx.check(u.freq_array.shape == f.shape and np.allclose(u.freq_array, f, rtol=0, atol=1.0), lambda: f"frequencies {u.freq_array[:4]} instead of {f[:4]}", "freqs")
    w = np.concatenate([np.full(byid[i]["nch"], abs(byid[i]["fres"]) * 1e6) for i in ids])
    ctx.check(np.allclose(u.channel_width, w), "channel widths", "width")
    fid = np.concatenate([np.full(byid[i]["nch"], i) for i in ids])
    ctx.check(np.array_equal(u.flex_spw_id_array, fid), "window of each channel", "fid")
    sl = {i: np.flatnonzero(fid == i) for i in ids}
    if flex:
        ctx.check(u.Npols == 1 and list(u.flex_spw_polarization_array) == [POLNUM[byid[i]["pol"]] for i in ids], "flexible polarizations", "flexpol")
        pidx = {p: 0 for p in pset}
    else:
        pl = sorted({POLNUM[p] for p in pset}, reverse=True)
        ctx.check(u.Npols == len(pl) and sorted(u.polarization_array, reverse=True) == pl and u.flex_spw_polarization_array is None, lambda: f"polarizations {u.polarization_array} instead of {pl}", "pols")
        pidx = {p: list(u.polarization_array).index(POLNUM[p]) for p in pset}
    D = np.zeros(u.data_array.shape, complex)
    F = np.ones(D.shape, bool)
    N = np.zeros(D.shape)
    row = {k: i for i, k in enumerate(blts)}
    for r in sel:
        x, fl, wt = calibrated(r, kw["apply_tsys"])
        if kw["apply_flags"] and r["flags"]:
            fl = np.ones_like(fl)
        k = row[r["inhid"], r["a"], r["b"]], sl[spw_id(r, split)], pidx[r["pol"]]
        D[k], F[k], N[k] = x.conj(), fl, wt
    live = ~F
    ctx.check(np.array_equal(u.flag_array, F), lambda: f"flags differ at {np.argwhere(u.flag_array != F)[:4].tolist()}, {kw}", "flags")
    ctx.check(np.allclose(u.data_array[live], D[live], rtol=1e-4, atol=1e-12), lambda: f"data differ, first at {np.argwhere(live & ~np.isclose(u.data_array, D, rtol=1e-4, atol=1e-12))[:3].tolist()}", "data")
    ctx.check(np.allclose(u.nsample_array[live], N[live], rtol=1e-4, atol=1e-12), "sample counts", "nsample")
    one = {}
    for r in sel:
        one[r["inhid"], r["a"], r["b"]] = r
    jd = Time([one[k]["mjd"] for k in blts], format="mjd", scale="tt").utc.jd
    ctx.check(np.allclose(u.time_array, jd, rtol=0, atol=2e-9), "times", "times")
    ctx.check(np.allclose(u.integration_time, one[blts[0]]["rint"]), "integration times", "inttime")
    lst = np.array([one[k]["lst"] for k in blts]) * np.pi / 12
    dl = np.angle(np.exp(1j * (lst - u.lst_array)))
    ctx.check(np.abs(dl).max() < 3e-6, lambda: f"LSTs differ by {np.abs(dl).max()}", "lst")
    nm = [u.phase_center_catalog[i]["cat_name"] for i in u.phase_center_id_array]
    ctx.check(nm == [one[k]["src"] for k in blts], lambda: f"sources {nm[:4]}", "sources")
    for c in u.phase_center_catalog.values():
        ra, de = info["radec"][c["cat_name"]]
        ctx.check(np.isclose(c["cat_lon"], ra) and np.isclose(c["cat_lat"], de) and c["cat_frame"] == "icrs" and c["cat_type"] == "sidereal", lambda: f"catalog entry {c}", "catalog")
    app = np.array([one[k]["app"] for k in blts])
    ctx.check(np.allclose(np.stack([u.phase_center_app_ra, u.phase_center_app_dec], 1), app, atol=1e-9), "apparent coordinates", "app")
    uvw = -np.array([one[k]["uvw"] for k in blts]).astype(float)
    pa = u.phase_center_frame_pa
    want = np.stack([uvw[:, 0] * np.cos(pa) - uvw[:, 1] * np.sin(pa), uvw[:, 0] * np.sin(pa) + uvw[:, 1] * np.cos(pa), uvw[:, 2]], 1)
    ctx.check(np.allclose(u.uvw_array, want, atol=1e-3), lambda: f"uvws {u.uvw_array[:2]} instead of {want[:2]}", "uvw")
    ctx.ev("uvw")
    ctx.check(u.telescope.name == "SMA" and list(u.telescope.antenna_numbers) == list(range(1, 9)), "antenna table", "ants")
    pos = np.loadtxt(os.path.join(SAMPLE, "antennas"))
    lon = u.telescope.location.lon.rad
    xyz = np.stack([pos[:, 1] * np.cos(lon) - pos[:, 2] * np.sin(lon), pos[:, 1] * np.sin(lon) + pos[:, 2] * np.cos(lon), pos[:, 3]], 1)
    ctx.check(np.allclose(u.telescope.antenna_positions, xyz, atol=1e-4), "antenna positions", "antpos")
    u.check()


# ---------------------------------------------------------------- parser histories
def key(p, i):
    """identity of spectral record i of a parser, through its tables"""
    sp = p.sp_data._data[i]
    b = p.bl_data._data[p.bl_data._header_key_index_dict[sp["blhid"]]]
    n = p.in_data._data[p.in_data._header_key_index_dict[b["inhid"]]]
    return (round(float(n["mjd"]), 9), int(b["iant1"]), int(b["iant2"]), int(b["isb"]), int(b["ant1rx"]), int(b["ant2rx"]), int(sp["corrchunk"])), str(p.codes_data["source"][int(n["isource"])])


def rkey(r):
    return (round(float(r["mjd"]), 9), r["a"], r["b"], r["sb"], *RX[r["pol"]], r["c"])


class Shadow:
    def __init__(self, recs):
        self.all = {rkey(r): r for r in recs}
        assert len(self.all) == len(recs)
        self.vis = set(self.all)
        self.avg = 1
        self.saved = {}


def compare(ctx, p, sh, what):
    idx = np.flatnonzero(p.sp_data._mask)
    got = {}
    for i in idx:
        k, s = key(p, i)
        got[k] = i
        if k in sh.all:
            ctx.check(s == sh.all[k]["src"], lambda: f"{what}: record {k} belongs to source {s} instead of {sh.all[k]['src']}", "hist-source")
    ctx.check(set(got) == sh.vis, lambda: f"{what}: {len(got)} records visible instead of {len(sh.vis)}; unexpected {sorted(set(got) - sh.vis)[:2]}, missing {sorted(sh.vis - set(got))[:2]}", "hist-visible")
    bad = [f for f, a in (("bl_data", p.sp_data["blhid"]), ) if set(a.tolist()) != set(getattr(p, f)["blhid"].tolist())]
    ctx.check(not bad, lambda: f"{what}: baseline table does not match the spectra", "hist-bl")
    ctx.check(set(p.bl_data["inhid"].tolist()) <= set(p.in_data["inhid"].tolist()), lambda: f"{what}: integration table does not match the baselines", "hist-in")
    for nm, d in (("vis_data", p.vis_data), ("raw_data", p.raw_data)):
        if d is None:
            continue
        ctx.check(sorted(d) == sorted(p.sp_data["sphid"].tolist()), lambda: f"{what}: {nm} holds {len(d)} spectra for {len(idx)} records", "hist-keys")
        v = d if nm == "vis_data" else MirParser._convert_raw_to_vis(d)
        for k, i in got.items():
            r = averaged(sh.all[k], sh.avg)
            q = v[p.sp_data._data[i]["sphid"]]
            if nm == "vis_data":
                x, fl, w = calibrated(r, p._tsys_applied)
                rt, at = 1e-4, 1e-12
                ok = np.allclose(q["weights"][~fl], w[~fl], rtol=1e-4)
            else:
                x, fl = r["data"], r["fl"]
                rt, at = 1e-5, (0 if sh.avg == 1 else np.abs(x.view(float)).max() * 2.0**-13 * max(1, getattr(sh, "packs", 1)))
                ok = True
            ok = ok and np.array_equal(q["flags"], fl) and np.allclose(q["data"][~fl], x[~fl], rtol=rt, atol=at)
            ctx.check(ok, lambda: f"{what}: {nm} of {k}: {q['data'][:3]} flags {q['flags'][:6]} instead of {x[:3]} {fl[:6]}", "hist-data")
    for k, i in list(got.items())[:40]:
        r = averaged(sh.all[k], sh.avg)
        s = p.sp_data._data[i]
        ctx.check(np.isclose(s["fsky"], r["fsky"]) and np.isclose(s["fres"], r["fres"]) and s["nch"] == r["nch"] and np.isclose(s["vres"], r["vres"]) and s["flags"] == r["flags"], lambda: f"{what}: metadata of {k}: nch {s['nch']} fres {s['fres']} instead of {r['nch']} {r['fres']}", "hist-meta")


def selection(ctx, info, sh):
    """a query, as given to select(), and the records of it"""
    rng = ctx.rng
    k = gen.pick(rng, ["source", "sb", "pol", "rec", "band", "corrchunk", "mjd", "fsky", "ant", "ant1", "vres", "nch", "inhid"])
    R = sh.all.values()
    neg = bool(rng.integers(2))
    op = gen.pick(rng, ["ne", "!="]) if neg else gen.pick(rng, ["eq", "=="])
    t = lambda f: {rkey(r) for r in R if bool(f(r)) != neg}  # noqa: E731
    if k == "source":
        s = [info["names"][i] for i in rng.permutation(len(info["names"]))[: int(rng.integers(1, 3))]]
        return (k, op, s[0] if len(s) == 1 else s), t(lambda r: r["src"] in s), "in"
    if k == "sb":
        s = int(rng.integers(2))
        return (k, op, "lu"[s]), t(lambda r: r["sb"] == s), "bl"
    if k == "pol" and not info["mode"].endswith("quirk"):
        s = gen.pick(rng, POLS)
        return (k, op, s), t(lambda r: r["pol"] == s), "bl"
    if k == "rec":
        s = gen.pick(rng, ["230", "240"])
        return (k, op, s), t(lambda r: r["irec"] == (0 if s == "230" else 3)), "bl"
    if k == "band":
        c = int(gen.pick(rng, [0] + info["chunks"]))
        return (k, op, f"s{c}" if c else "c1"), t(lambda r: r["c"] == c), "sp"
    if k == "corrchunk":
        c = [int(x) for x in rng.choice([0] + info["chunks"], 2)]
        return (k, op, c), t(lambda r: r["c"] in c), "sp"
    if k == "mjd":
        lo, hi = sorted(rng.uniform(info["mjd"][0] - 1e-4, info["mjd"][-1] + 1e-4, 2))
        if rng.integers(2):
            return (k, "outside" if neg else "between", (lo, hi)), t(lambda r: lo <= r["mjd"] <= hi), "in"
        return (k, "ge" if neg else "lt", hi), t(lambda r: r["mjd"] < hi), "in"
    if k == "fsky":
        f = rng.uniform(229, 242)
        return (k, "ge" if neg else "<", f), t(lambda r: r["fsky"] < f), "sp"
    if k == "ant":
        a = [int(x) for x in rng.choice(info["ants"], 2, replace=False)]
        if neg:
            return (k, op, a[:1]), {rkey(r) for r in R if r["a"] != a[0] and r["b"] != a[0]}, "eng"
        return (k, op, a), {rkey(r) for r in R if r["a"] in a and r["b"] in a}, "eng"
    if k == "ant1":
        a = int(gen.pick(rng, info["ants"]))
        return (k, op, str(a)), t(lambda r: r["a"] == a), "bl"
    if k == "vres" and sh.avg == 1:
        f = rng.uniform(0.1, 1)
        return (k, ">" if neg else "le", f), t(lambda r: r["vres"] <= f), "sp"
    if k == "nch":
        n = int(gen.pick(rng, [4, 8, 16, 32])) // sh.avg or 1
        return (k, "gt" if neg else "le", n), t(lambda r: averaged(r, sh.avg)["nch"] <= n), "sp"
    i = gen.pick(rng, info["inhids"])
    return ("inhid", op, i), t(lambda r: r["inhid"] == i), "in"


def load(ctx, p, sh):
    rng = ctx.rng
    raw = bool(rng.integers(2))
    kw = dict(load_cross=True, load_raw=raw)
    if not raw:
        kw["apply_tsys"] = bool(rng.integers(2))
    kw["use_mmap"] = bool(rng.integers(2))
    had = p.raw_data is not None
    if p.vis_data is not None or p.raw_data is not None:
        kw["allow_downselect"] = gen.pick(rng, [None, False])
        if kw["allow_downselect"] is None and not raw and p.vis_data is not None:
            kw["apply_tsys"] = p._tsys_applied
    sh.packs = 1
    quiet(p.load_data, **kw)
    if had and not raw and sh.avg > 1:
        # converted from packed averages
        quiet(p.load_data, load_cross=True, load_raw=False, apply_tsys=kw["apply_tsys"], allow_downselect=False, allow_conversion=False)
    ctx.ev("hist_load_raw" if raw else "hist_load_vis")
    return f"load {kw}"


def history(ctx):
    rng = ctx.rng
    info, recs = make(ctx, "a.mir", nint=int(rng.integers(1, 5)), small=True)
    sh = Shadow(recs)
    p = quiet(MirParser, info["dir"])
    compare(ctx, p, sh, "new parser")
    original_tau = p.sp_data._data["tau0"].copy()
    steps = []
    for step in range(int(rng.integers(3, 9))):
        op = gen.pick(rng, ["select", "select", "select", "reset_select", "or", "reset", "mask", "load", "load", "rechunk", "tsys", "copy", "write", "meta"])
        if op in ("select", "reset_select"):
            qs, want, n = [], set(sh.all) if op == "reset_select" else set(sh.vis), int(rng.integers(1, 3))
            for _ in range(n):
                q, s, _t = selection(ctx, info, sh)
                qs.append(q)
                want &= s
            if not want:
                continue
            arg = qs[0] if n == 1 and rng.integers(2) else qs
            given = list(arg)
            quiet(p.select, where=arg, reset=op == "reset_select")
            ctx.check(list(arg) == given, lambda: f"select changed its argument: {given} -> {arg}", "arg-changed")
            sh.vis = want
            steps.append(f"{op} {given}")
            ctx.ev("hist_select")
        elif op == "or":
            q1, s1, t1 = selection(ctx, info, sh)
            q2, s2, t2 = selection(ctx, info, sh)
            if t1 != t2 or t1 == "eng" or "inhid" in (q1[0], q2[0]) or not (s1 | s2) & sh.vis:
                continue
            quiet(p.select, where=[q1, q2], and_where_args=False)
            sh.vis = sh.vis & (s1 | s2)
            steps.append(f"or {q1} {q2}")
            ctx.ev("hist_or")
        elif op == "reset":
            quiet(p.reset)
            sh.vis, sh.avg = set(sh.all), 1
            ctx.check(p.vis_data is None and p.raw_data is None, "data still loaded after reset", "hist-reset")
            steps.append("reset")
            ctx.ev("hist_reset")
        elif op == "mask":
            if sh.saved and rng.integers(2):
                n = gen.pick(rng, sorted(sh.saved))
                quiet(p.restore_mask, n)
                sh.vis = set(sh.saved[n])
                steps.append(f"restore {n}")
                ctx.ev("hist_mask")
            else:
                n = f"m{int(rng.integers(3))}"
                quiet(p.save_mask, n, overwrite=True)
                sh.saved[n] = set(sh.vis)
                steps.append(f"save {n}")
        elif op == "load":
            steps.append(load(ctx, p, sh))
        elif op == "rechunk":
            if sh.avg > 1 or any(r["nch"] % 2 for r in recs):
                continue
            n = int(gen.pick(rng, [2, 4]))
            quiet(p.rechunk, n)
            sh.avg *= n
            steps.append(f"rechunk {n}")
            ctx.ev("hist_rechunk")
        elif op == "tsys":
            if p.vis_data is None:
                continue
            if any(norm(sh.all[k]) == 0 for k in sh.vis):
                continue  # such spectra stay flagged
            quiet(p.apply_tsys, invert=p._tsys_applied)
            steps.append("tsys")
            ctx.ev("hist_tsys")
        elif op == "meta":
            # change a column for the visible records of some baselines; others keep their values
            a = gen.pick(rng, info["ants"])
            v = float(rng.uniform(0.2, 2))
            ids = [int(x) for x, y in zip(p.bl_data["blhid"], p.bl_data["iant1"]) if y == a]
            if not ids:
                continue
            before = p.sp_data.get_value("tau0", use_mask=False).copy()
            p.sp_data.set_value("tau0", v, where=("blhid", "eq", ids))
            now = p.sp_data._data["tau0"]
            hit = np.isin(p.sp_data._data["blhid"], ids) & p.sp_data._mask
            ctx.check(np.allclose(now[hit], v) and np.array_equal(now[~hit], before[~hit]), "values set on other records", "hist-meta-set")
            got = p.sp_data.get_value("tau0", where=("blhid", "eq", ids))
            ctx.check(len(got) == hit.sum() and np.allclose(got, v), "values got", "hist-meta-get")
            g = p.sp_data.group_by("blhid")
            flat = sorted(int(x) for y in g.values() for x in y)
            ctx.check(flat == sorted(p.sp_data["sphid"].tolist()), "groups", "hist-group")
            for b, y in g.items():
                ctx.check(all(p.sp_data._data["blhid"][p.sp_data._header_key_index_dict[x]] == b for x in y), "group members", "hist-group")
            p.sp_data.reset_values("tau0")
            ctx.check(np.array_equal(p.sp_data._data["tau0"], original_tau), "reset_values does not restore", "hist-meta-reset")
            steps.append("meta")
            ctx.ev("hist_meta")
        elif op == "copy":
            q = p.copy()
            ctx.check(q == p, "a copy differs", "hist-copy")
            if rng.integers(2):
                p = q
            steps.append("copy")
        elif op == "write":
            n = ctx.path(f"w{step}.mir")
            # with no data loaded only tables are written
            quiet(p.load_data, load_cross=True, load_raw=True, allow_downselect=False)
            compare(ctx, p, sh, f"{steps} then loaded")
            quiet(p.write, n)
            q = quiet(MirParser, n)
            s2 = Shadow([dict(averaged(sh.all[k], sh.avg)) for k in sorted(sh.vis)])
            s2.packs = 2
            compare(ctx, q, s2, f"{steps} written and opened")
            quiet(q.load_data, load_cross=True, load_raw=True)
            if sh.avg == 1:
                compare(ctx, q, s2, f"{steps} written and loaded")
            else:
                for k in p.raw_data:
                    ctx.check(np.array_equal(p.raw_data[k]["data"], q.raw_data[k]["data"]) and p.raw_data[k]["scale_fac"] == q.raw_data[k]["scale_fac"], f"{steps}: spectrum {k} differs after writing", "write-rechunked")
            ctx.ev("hist_write")
            steps.append("write")
        compare(ctx, p, sh, str(steps))
    ctx.case(info["mode"], *[s.split()[0] for s in steps])
    ctx.log(steps)


def append(ctx):
    """a dataset written in pieces equals the dataset"""
    rng = ctx.rng
    info, recs = make(ctx, "a.mir", nint=int(rng.integers(2, 6)), small=True)
    sh = Shadow(recs)
    cut = info["inhids"][int(rng.integers(1, len(info["inhids"])))]
    n = ctx.path("out.mir")
    for q in (("inhid", "lt", cut), ("inhid", "ge", cut)):
        p = quiet(MirParser, info["dir"])
        quiet(p.select, where=[q])
        quiet(p.load_data, load_raw=True, load_cross=True)
        quiet(p.write, n, append_data=True)
    q = quiet(MirParser, n)
    compare(ctx, q, sh, "appended")
    quiet(q.load_data, load_cross=True, load_raw=bool(rng.integers(2)))
    compare(ctx, q, sh, "appended and loaded")
    ctx.ev("hist_append")


def adding(ctx):
    rng = ctx.rng
    if rng.integers(2):
        # parts of one dataset
        info, recs = make(ctx, "a.mir", nint=int(rng.integers(2, 5)), small=True)
        sh = Shadow(recs)
        a, b = quiet(MirParser, info["dir"]), quiet(MirParser, info["dir"])
        q1, s1, _ = selection(ctx, info, sh)
        q2, s2, _ = selection(ctx, info, sh)
        if not s1 or not s2:
            raise Skip("empty")
        quiet(a.select, where=[q1])
        quiet(b.select, where=[q2])
        ld = bool(rng.integers(2))
        if ld:
            for x in (a, b):
                quiet(x.load_data, load_cross=True, apply_tsys=True)
        c = quiet(lambda: a + b)
        sh.vis = s1 | s2
        ctx.check((c.vis_data is not None) == ld, "data loaded in both but not in the sum", "add-loaded")
        ctx.log(q1, q2, ld)
        try:
            compare(ctx, c, sh, f"sum of {q1} and {q2}")
        except Exception as e:
            raise
        ctx.ev("hist_merge")
        return
    t0 = 59054.2
    mode = gen.pick(rng, ["single", "dual", "full"])
    i1, r1 = make(ctx, "a.mir", nint=int(rng.integers(1, 4)), small=True, t0=t0, mode=mode)
    i2, r2 = make(ctx, "b.mir", nint=int(rng.integers(1, 4)), small=True, t0=t0 + 0.1, recode=True, mode=mode)
    a, b = quiet(MirParser, i1["dir"]), quiet(MirParser, i2["dir"])
    ld = int(rng.integers(3))
    if ld == 1:
        for x in (a, b):
            quiet(x.load_data, load_cross=True, apply_tsys=True)
    if ld == 2:
        for x in (a, b):
            quiet(x.load_data, load_cross=True, load_raw=True)
    sh = Shadow(r1 + r2)
    c = quiet(lambda: a + b)
    compare(ctx, c, sh, "two datasets added")
    compare(ctx, a, Shadow(r1), "left operand afterwards")
    compare(ctx, b, Shadow(r2), "right operand afterwards")
    quiet(c.load_data, load_cross=True, load_raw=bool(rng.integers(2)), allow_downselect=False, allow_conversion=False)
    compare(ctx, c, sh, "two datasets added and loaded")
    n = ctx.path("sum.mir")
    quiet(c.load_data, load_cross=True, load_raw=True, allow_downselect=False)
    quiet(c.write, n)
    q = quiet(MirParser, n)
    quiet(q.load_data, load_cross=True)
    compare(ctx, q, sh, "two datasets added, written and loaded")
    ctx.ev("hist_add")
    ctx.ev("recode")


def lst_range(ctx):
    """a range of sidereal times keeps the records in it"""
    info, recs = make(ctx, "a.mir", nint=6, mode="dual", small=True)
    a, b = UVData(), UVData()
    quiet(a.read_mir, info["dir"])
    l = np.unique(a.lst_array)
    if len(l) < 4:
        raise Skip("times")
    lo, hi = (l[0] + l[1]) / 2, (l[2] + l[3]) / 2
    want = np.sort(a.time_array[(a.lst_array > lo) & (a.lst_array < hi)])
    ctx.ev("lst_range")
    ctx.ev("oracle_evaluations")
    try:
        quiet(b.read_mir, info["dir"], lst_range=[float(lo), float(hi)])
    except Exception as e:
        return ctx.fail(f"lst_range: {type(e).__name__} {e}", "lst-range")
    if b.Nblts == a.Nblts:
        return ctx.finding("read_mir-lst_range-ignored", f"read_mir(lst_range=({lo:.4f}, {hi:.4f})) keeps all {a.Nblts} records")
    ctx.check(np.array_equal(np.sort(b.time_array), want), "lst_range keeps other records", "lst-range")


SCENARIOS = [
    Scenario("read", read, 700, 6000),
    Scenario("history", history, 600, 6000),
    Scenario("append", append, 60, 600),
    Scenario("adding", adding, 120, 1200),
    Scenario("lst_range", lst_range, 4, 10),
]
