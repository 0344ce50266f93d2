"""C36 MWA correlator data are mapped to the right baselines and corrected as asked."""
import itertools
import os
import warnings

import h5py
import numpy as np
from astropy import units as un
from astropy.coordinates import EarthLocation
from astropy.coordinates.sites import SiteRegistry
from astropy.io import fits
from astropy.time import Time
from scipy.special import ndtr

from pyuvdata import UVData
from pyuvdata.data import DATA_PATH
from vmon import canon, gen
from vmon.core import Scenario, Skip

RULE = (
    "synthetic observations in both correlator formats: shuffled antenna, tile and cable tables, random coarse channel lists around the file-order turn-over at 128, files missing, split and offset in time, "
    "every correlation product carrying its own value; every product, frequency, time, flag and sample count is compared with an independent model of the packing and of each requested correction; "
    "the Van Vleck correction is compared with a numerically integrated quantizer, and the sample observation with the independently converted (cotter) file. non-trivial = distinct (format, layout, options)"
)
REQUIRED = ["legacy", "mwax", "legacy_f4", "legacy_bscale", "gap", "split", "offset", "order_turn", "noncontig", "gains", "pfb", "cable", "cable_EL", "cable_raw", "flag_init", "goodtime", "end_flag", "dc", "edge",
            "flagged_ants", "keep_flagged", "aoflag", "aoflag_short", "aoflag_long", "propagate", "nopropagate", "phased", "meta_only", "dtype128", "vv_cheby", "vv_int", "vv_small_ant", "vv_small_sample", "vv_fn", "cotter", "via_read", "ppds", "multi_refused", "unaligned_refused"]
NA = 128
C = 299792458.0
LAT, LON, ALT = -26.70331941, 116.67081524, 377.827
PAIRS = [(a, b) for a in range(NA) for b in range(a, NA)]
A1 = np.array([p[0] for p in PAIRS])
A2 = np.array([p[1] for p in PAIRS])
TDIR = os.path.join(DATA_PATH, "mwa_corr_fits_testfiles")


def site():
    """the observatory's location comes from astropy's site list, which needs the network; give it the entry"""
    r = SiteRegistry()
    r.add_site(["mwa", "MWA", "Murchison Widefield Array"], EarthLocation.from_geodetic(LON * un.deg, LAT * un.deg, ALT * un.m))
    EarthLocation._site_registry = r


def enu_to_rel(e, n, h):
    """offsets from the array centre, which lies at height 0 of the tile heights' reference"""
    la, lo = np.deg2rad(LAT), np.deg2rad(LON)
    m = np.array([[-np.sin(lo), -np.sin(la) * np.cos(lo), np.cos(la) * np.cos(lo)], [np.cos(lo), -np.sin(la) * np.sin(lo), np.cos(la) * np.sin(lo)], [0, np.cos(la), np.sin(la)]])
    return (m @ np.array([e, n, h])).T


def pfb_out(i):
    """output line of the legacy filter bank for input line i (per block of 64 inputs)"""
    blk, k = divmod(i, 64)
    # input = floor(out / 4) + (out % 4) * 16
    return blk * 64 + (k % 16) * 4 + k // 16


def observation(rng, mwax, ncoarse=None, full=32):
    o = {"mwax": mwax}
    o["nc"] = nc = ncoarse or int(rng.integers(2, 9))
    lo = int(rng.integers(124, 130)) if rng.integers(2) else int(rng.integers(60, 180 - nc))
    if rng.integers(2) and lo <= 128:
        lo = max(129 - int(rng.integers(1, nc + 1)), 56)
    o["chans"] = list(range(lo, lo + nc))
    o["full"] = full
    o["fc"] = 1280.0 / full  # kHz
    o["int"] = float(gen.pick(rng, [0.5, 1.0, 2.0]))
    o["t0"] = 1447698336 + int(rng.integers(0, 1000))
    perm = rng.permutation(NA)  # antenna number of the row pair
    o["ant_of_row"] = perm
    tiles = rng.choice(np.arange(11, 3000), NA, replace=False)
    if rng.integers(2):
        tiles = np.sort(tiles)
    o["tile"] = tiles  # by antenna
    o["name"] = [f"T{x:04d}" for x in rng.permutation(NA)]
    o["flag"] = rng.random(NA) < gen.pick(rng, [0.0, 0.03, 0.3])
    o["enh"] = np.stack([rng.uniform(-500, 500, NA), rng.uniform(-500, 500, NA), rng.uniform(0, 10, NA) + 370], 1).astype(np.float32)
    L, S = [], []
    for _ in range(NA):
        v = round(float(rng.uniform(-1200, 1200)), int(rng.integers(0, 3)))
        if rng.integers(2):
            S.append(f"EL_{v}")
            L.append(v)
        else:
            v = abs(v)
            S.append(f"{v}")
            L.append(v * float(np.float32(1.204)))
    o["len_s"], o["len"] = S, np.array(L)
    o["gains"] = rng.integers(40, 120, (NA, 24))
    o["good"] = o["t0"] + float(gen.pick(rng, [-1.0, 0.0, 0.5, 1.0, 2.0, 3.0]))
    o["scale"] = gen.pick(rng, ["f4", 0.5, 0.25, 0.125]) if not mwax else None
    return o


def metafits(o, path, ppds=False):
    h = fits.Header()
    h["GPSTIME"] = 1131733552
    h["FILENAME"] = "field_x"
    h["DATE-OBS"] = "2015-11-16T18:25:35"
    h["RA"], h["DEC"] = o.get("radec", (88.4, -26.7))
    nc = o["nc"]
    h["CENTCHAN"] = o["chans"][nc // 2]
    h["CHANNELS"] = ",".join(str(c) for c in o["chans"])
    h["FINECHAN"] = o["fc"]
    h["INTTIME"] = o["int"]
    h["NAV_FREQ"] = int(round(o["fc"] / 10))
    h["NCHANS"] = o["full"] * nc
    h["BANDWDTH"] = 1.28 * nc
    h["FREQCENT"] = o["freqcent"]
    h["TELESCOP"], h["INSTRUME"] = "MWA", "128T"
    if not ppds:
        h["GOODTIME"] = o["good"]
    h["HISTORY"] = "made for the check"
    rows = []
    for r, a in enumerate(o["ant_of_row"]):
        for p, P in enumerate("YX"):
            rows.append((2 * r + p, a, o["tile"][a], o["name"][a], P, int(o["flag"][a]), o["len_s"][a], o["enh"][a, 1], o["enh"][a, 0], o["enh"][a, 2], o["gains"][a]))
    cols = [("Input", "I"), ("Antenna", "I"), ("Tile", "I"), ("TileName", "8A"), ("Pol", "A"), ("Flag", "I"), ("Length", "14A"), ("North", "E"), ("East", "E"), ("Height", "E"), ("Gains", "24I")]
    t = fits.BinTableHDU.from_columns([fits.Column(name=n, format=f, array=np.array([r[i] for r in rows])) for i, (n, f) in enumerate(cols)], name="TILEDATA")
    hl = [fits.PrimaryHDU(header=h), t]
    if ppds:
        hl.append(fits.BinTableHDU.from_columns([fits.Column(name="Time", format="J", array=np.arange(3))], name="PPDS"))
    fits.HDUList(hl).writeto(path)


def file_number(o, c):
    """number in the file name of coarse channel c"""
    if o["mwax"]:
        return c
    order = [x for x in sorted(o["chans"]) if x <= 128] + sorted([x for x in o["chans"] if x > 128], reverse=True)
    return order.index(c) + 1


def unpacked(v, mwax, ant_of_row):
    """v[a1, p1, a2, p2] antenna-based correlations (p: 0=Y, 1=X) to what the correlator stores"""
    if mwax:
        # [baseline][pol], pols xx, xy, yx, yy
        return np.stack([v[A1, 1, A2, 1], v[A1, 1, A2, 0], v[A1, 0, A2, 1], v[A1, 0, A2, 0]], -1)
    # legacy: packed by filter bank output line
    line_ant, line_pol = np.zeros(256, int), np.zeros(256, int)
    for r, a in enumerate(ant_of_row):
        for p in range(2):
            k = pfb_out(2 * r + p)
            line_ant[k], line_pol[k] = a, p
    la, lb, pa, pb = [], [], [], []
    for s1 in range(128):
        for s2 in range(s1 + 1):
            for q1 in range(2):
                for q2 in range(2):
                    la.append(2 * s1 + q1)
                    lb.append(2 * s2 + q2)
    la, lb = np.array(la), np.array(lb)
    out = v[line_ant[la], line_pol[la], line_ant[lb], line_pol[lb]].copy()
    # the redundant products (two lines of one correlator station) are stored but not to be used
    out[lb > la] += 1000
    return out


def writefile(o, path, times, blocks):
    """blocks: per time [nf, ...packed]"""
    h = fits.Header()
    h["TIME"], h["MILLITIM"] = int(times[0]), int(round((times[0] % 1) * 1000))
    h["INTTIME"] = o["int"]
    h["OBSID"] = o.get("obsid", "1131733552")
    if o["mwax"]:
        h["CORR_VER"] = 2
        h["U2S_VER"], h["CBF_VER"], h["DB2F_VER"] = "2.03c-69", "1.0.3", "0.10.2"
    hl = [fits.PrimaryHDU(header=h)]
    for t, b in zip(times, blocks, strict=True):
        if o["mwax"]:
            d = np.moveaxis(b, 0, 1).reshape(len(PAIRS), -1)  # [bl][fine][pol]
            hd = fits.ImageHDU(np.ascontiguousarray(d).astype(np.complex64).view(np.float32))
        elif o["scale"] == "f4":
            hd = fits.ImageHDU((b * 0.25).astype(np.complex64).view(np.float32))
        else:
            hd = fits.ImageHDU(np.ascontiguousarray(b).astype(np.complex128).view(np.float64).astype(np.int32))
            hd.header["BSCALE"] = o["scale"]
        hd.header["TIME"], hd.header["MILLITIM"] = int(np.floor(t)), int(round((t % 1) * 1000))
        hl.append(hd)
        if o["mwax"]:
            w = fits.ImageHDU(np.ones((len(PAIRS), 4), np.float32))
            w.header["TIME"], w.header["MILLITIM"] = hd.header["TIME"], hd.header["MILLITIM"]
            hl.append(w)
    fits.HDUList(hl).writeto(path)


def value(rng, k):
    """hermitian antenna-based correlations with whole-number parts"""
    z = rng.integers(-400, 400, (NA * 2, NA * 2)) + 1j * rng.integers(-400, 400, (NA * 2, NA * 2))
    z = np.triu(z, 1)
    z = z + z.conj().T
    z += np.diag(rng.integers(500, 900, NA * 2))
    return z.reshape(NA, 2, NA, 2)


def layout(ctx, o, nf, only=None):
    """files on disk; returns the list and the truth"""
    rng, d = ctx.rng, ctx.tmp
    mwax = o["mwax"]
    o["freqcent"] = (o["chans"][o["nc"] // 2] * 1280000 - 640000 + int(rng.integers(0, 2)) * 15000) / 1e6
    meta = os.path.join(d, "1131733552.metafits")
    metafits(o, meta)
    k = int(rng.integers(1, o["nc"] + 1)) if only is None else only
    have = sorted(rng.choice(o["chans"], k, replace=False).tolist())
    if rng.integers(2):
        s = int(rng.integers(0, o["nc"] - k + 1))
        have = o["chans"][s : s + k]
    nt = int(rng.integers(1, 4))
    step = o["int"]
    tt = [o["t0"] + i * step for i in range(nt)]
    truth, files, present = {}, [], {}
    names = []
    for c in have:
        ts = list(range(nt))
        if rng.integers(4) == 0 and nt > 1:
            ts = ts[1:] if rng.integers(2) else ts[:-1]
            ctx.ev("offset")
        parts = [ts]
        if len(ts) > 1 and rng.integers(2):
            cut = int(rng.integers(1, len(ts)))
            parts = [ts[:cut], ts[cut:]]
            ctx.ev("split")
        present[c] = set(ts)
        vals = {}
        for pi, part in enumerate(parts):
            blocks = []
            for t in part:
                fb = []
                for f in range(nf):
                    v = o["value"](rng, (c, t, f)) if "value" in o else value(rng, (c, t, f))
                    vals[t, f] = v
                    fb.append(unpacked(v, mwax, o["ant_of_row"]))
                blocks.append(np.array(fb))
            n = file_number(o, c)
            fn = os.path.join(d, f"1131733552_20151116182537_ch{n:03d}_{pi:03d}.fits" if mwax else f"1131733552_20151116182537_gpubox{n:02d}_{pi:02d}.fits")
            writefile(o, fn, [tt[t] for t in part], blocks)
            names.append(fn)
        truth[c] = vals
    used = sorted(set().union(*present.values()))
    # only times some file has are in the observation
    t_lo, t_hi = min(used), max(used)
    o["times"] = list(range(t_lo, t_hi + 1))
    o["tt"] = tt
    o["have"], o["present"], o["truth"], o["nf"] = have, present, truth, nf
    if any(len(present[c]) < len(o["times"]) for c in have):
        ctx.ev("gap")
    if any(c <= 128 for c in o["chans"]) and sum(c > 128 for c in o["chans"]) > 1:
        ctx.ev("order_turn")
    if np.any(np.diff([o["chans"].index(c) for c in have]) > 1):
        ctx.ev("noncontig")
    files = [meta, *names]
    order = rng.permutation(len(files))
    return [files[i] for i in order], meta


def expected(o, opt):
    """independent model: data, flags, nsample with axes (time, baseline, freq, pol), pols xx yy xy yx"""
    have, nf = o["have"], o["nf"]
    nt = len(o["times"])
    nb = len(PAIRS)
    data = np.zeros((nt, nb, len(have) * nf, 4), complex)
    miss = np.ones((nt, len(have)), bool)
    pols = [(1, 1), (0, 0), (1, 0), (0, 1)]
    freqs = np.zeros(len(have) * nf)
    for ci, c in enumerate(have):
        k = o["chans"].index(c)
        base = o["freqcent"] * 1e6 if not o["mwax"] else o["chans"][o["nc"] // 2] * 1.28e6 - (o["full"] // 2) * o["fc"] * 1e3
        freqs[ci * nf : (ci + 1) * nf] = base + (k - o["nc"] // 2) * 1.28e6 + np.arange(nf) * o["fc"] * 1e3
        for i, t in enumerate(o["times"]):
            if t not in o["present"][c]:
                continue
            miss[i, ci] = False
            for f in range(nf):
                v = o["truth"][c][t, f]
                for q, (p1, p2) in enumerate(pols):
                    data[i, :, ci * nf + f, q] = v[A1, p1, A2, p2]
    if not o["mwax"]:
        data *= 0.25 if o["scale"] == "f4" else o["scale"]
    if opt.get("remove_dig_gains", True):
        for ci, c in enumerate(have):
            g = o["gains"][:, o["chans"].index(c)] / 64
            data[:, :, ci * nf : (ci + 1) * nf] /= (g[A1] * g[A2])[None, :, None, None]
    if opt.get("remove_coarse_band", True):
        if o["mwax"]:
            with h5py.File(os.path.join(DATA_PATH, "mwa_config_data", f"mwax_pfb_bandpass_{int(o['fc'])}kHz.h5"), "r") as h:
                cb = h["coarse_band"][:]
        else:
            cb0 = np.loadtxt(os.path.join(DATA_PATH, "mwa_config_data", "MWA_rev_cb_10khz_doubles.txt"))
            av = int(round(o["fc"] / 10))
            cb = np.array([cb0[i * av : (i + 1) * av].mean() for i in range(128 // av)])
        for ci in range(len(have)):
            data[:, :, ci * nf : (ci + 1) * nf] /= cb[:nf][None, None, :, None]
    if opt.get("correct_cable_len", True):
        dl = o["len"][A2] - o["len"][A1]
        data = data * np.exp(-2j * np.pi * dl[:, None] / C * freqs[None, :])[None, :, :, None]
    data = data.conj()
    ns = np.repeat(~miss, nf, axis=1)[:, None, :, None] * np.ones((nt, nb, 1, 4))
    if opt.get("propagate_coarse_flags", True):
        fl = np.repeat(miss.any(1)[:, None], len(have) * nf, axis=1)
    else:
        fl = np.repeat(miss, nf, axis=1)
    fl = fl.copy()
    if opt.get("flag_init", True):
        ne = int(round(opt.get("edge_width", 80e3) / (o["fc"] * 1e3)))
        for ci in range(len(have)):
            for e in range(min(ne, nf)):
                fl[:, ci * nf + e] = True
                fl[:, (ci + 1) * nf - 1 - e] = True
            if opt.get("flag_dc_offset", True):
                fl[:, ci * nf + nf // 2] = True
        sf = opt.get("start_flag", "goodtime")
        start = o["tt"][o["times"][0]]
        sf = max(o["good"] - start, 0.0) if sf == "goodtime" else sf
        fl[: int(np.ceil(sf / o["int"] - 1e-9))] = True
        en = int(round(opt.get("end_flag", 0.0) / o["int"]))
        if en:
            fl[-en:] = True
    flags = np.repeat(np.repeat(fl[:, None, :, None], nb, axis=1), 4, axis=3)
    flags |= (o["flag"][A1] | o["flag"][A2])[None, :, None, None]
    return data, flags, ns, freqs


def options(rng, o):
    k = {}
    if o["mwax"] and o["fc"] not in (40.0, 80.0):
        k["remove_coarse_band"] = False
    for n in ("remove_dig_gains", "remove_coarse_band", "correct_cable_len", "propagate_coarse_flags", "flag_init", "flag_dc_offset", "remove_flagged_ants"):
        if rng.integers(3) == 0:
            k.setdefault(n, bool(rng.integers(2)))
    if rng.integers(2):
        k["edge_width"] = float(rng.integers(0, 3)) * o["fc"] * 1e3
    elif 80.0 % o["fc"]:
        k["edge_width"] = 0.0
    if rng.integers(2):
        k["start_flag"] = float(rng.integers(0, 3)) * o["int"]
    if rng.integers(2):
        k["end_flag"] = float(rng.integers(0, 2)) * o["int"]
    if rng.integers(3) == 0:
        k["data_array_dtype"] = np.complex128
    if rng.integers(3) == 0:
        k["nsample_array_dtype"] = gen.pick(rng, [np.float64, np.float32, np.float16])
    if rng.integers(2):
        k["background_lsts"] = False
    return k


def read(files, **k):
    site()
    u = UVData()
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        u.read_mwa_corr_fits(files, **k)
    return u


def rows_of(ctx, u, o):
    """(time index, baseline index) of each record, by antenna number, and the metadata checks"""
    tile = {int(t): a for a, t in enumerate(o["tile"])}
    a1 = np.array([tile[int(x)] for x in u.ant_1_array])
    a2 = np.array([tile[int(x)] for x in u.ant_2_array])
    ctx.check(np.all(a1 <= a2), "baselines are not ordered by correlator antenna", "mwa-pairs")
    idx = np.full((NA, NA), -1)
    idx[A1, A2] = np.arange(len(PAIRS))
    jd = [Time(o["tt"][t] + o["int"] / 2, format="unix", scale="utc").jd for t in o["times"]]
    ti = np.array([int(np.argmin(np.abs(np.array(jd) - x))) for x in np.unique(u.time_array)])
    ut, inv = np.unique(u.time_array, return_inverse=True)
    ctx.check(len(ut) == len(jd) and np.allclose(ut, jd, rtol=0, atol=1e-4 / 86400), f"times are {ut} instead of {jd}", "mwa-times")
    ctx.check(np.all(u.integration_time == o["int"]), "integration time", "mwa-int")
    return ti[inv], idx[a1, a2]


def compare(ctx, u, o, opt, tag, want=None, rtol=3e-5, extra_flags=None):
    data, flags, ns, freqs = expected(o, opt) if want is None else want
    if extra_flags is not None:
        flags = flags | extra_flags
    t, b = rows_of(ctx, u, o)
    keep = set(range(NA)) if not opt.get("remove_flagged_ants", True) else {a for a in range(NA) if not o["flag"][a]}
    wantrows = {(i, j) for i in range(len(o["times"])) for j in np.nonzero(np.isin(A1, list(keep)) & np.isin(A2, list(keep)))[0]}
    got = list(zip(t.tolist(), b.tolist(), strict=True))
    ctx.check(len(got) == len(set(got)) and set(got) == wantrows, f"{tag}: {len(got)} records (distinct {len(set(got))}) instead of {len(wantrows)}", "mwa-records")
    ctx.check(u.polarization_array.tolist() == [-5, -6, -7, -8], f"polarizations {u.polarization_array}", "mwa-pols")
    ctx.check(u.freq_array.shape == freqs.shape and np.allclose(u.freq_array, freqs, rtol=0, atol=1e-3), f"{tag}: frequencies {u.freq_array} instead of {freqs}", "mwa-freq")
    ctx.check(np.allclose(u.channel_width, o["fc"] * 1e3), f"channel widths {u.channel_width[:3]}", "mwa-width")
    cont = not np.any(np.diff([o["chans"].index(c) for c in o["have"]]) > 1)
    ids = np.zeros(len(freqs), int) if cont else np.repeat(o["have"], o["nf"])
    ctx.check(np.array_equal(u.flex_spw_id_array, ids), f"{tag}: windows {u.flex_spw_id_array} instead of {ids}", "mwa-spw")
    # antennas
    ant = {int(n): (str(u.telescope.antenna_names[i]), u.telescope.antenna_positions[i]) for i, n in enumerate(u.telescope.antenna_numbers)}
    rel = enu_to_rel(*[o["enh"][:, i].astype(float) for i in range(3)])
    for a in range(NA):
        n = int(o["tile"][a])
        if a in keep or not opt.get("remove_flagged_ants", True):
            ctx.check(n in ant and ant[n][0].strip() == o["name"][a] and np.allclose(ant[n][1], rel[a], atol=1e-3), f"{tag}: antenna {n}: {ant.get(n)} instead of {o['name'][a], rel[a]}", "mwa-antenna")
    # uvws follow the antennas
    if u.data_array is None:
        return
    if np.asarray(u.phase_center_id_array).size and u.phase_center_catalog[int(u.phase_center_id_array[0])]["cat_type"] == "unprojected":
        e = (o["enh"][A2] - o["enh"][A1]).astype(float)
        ctx.check(np.allclose(u.uvw_array, e[b], atol=0.05), f"{tag}: uvws do not follow the antenna positions", "mwa-uvw")
    W = data[t, b]
    # the imaginary part of auto-correlations is removed on reading
    aut = (A1 == A2)[b]
    if opt.get("fix_autos", True):
        W = W.copy()
        W[np.ix_(aut, range(W.shape[1]), (0, 1))] = np.abs(W[np.ix_(aut, range(W.shape[1]), (0, 1))])
    dif = np.abs(u.data_array - W)
    bad = dif > rtol * np.abs(W) + 1e-9
    ctx.check(not bad.any(), lambda: f"{tag}: {int(bad.sum())} of {bad.size} products differ, first (record, channel, pol) {np.argwhere(bad)[0].tolist()}: {u.data_array[bad][0]} instead of {W[bad][0]} {opt}", "mwa-data")
    ctx.check(np.array_equal(u.nsample_array, ns[t, b]), f"{tag}: sample counts differ", "mwa-nsample")
    bf = u.flag_array != flags[t, b]
    ctx.check(not bf.any(), lambda: f"{tag}: {int(bf.sum())} of {bf.size} flags differ, first {np.argwhere(bf)[0].tolist()} is {u.flag_array[bf][0]}; {opt} good={o['good'] - o['tt'][o['times'][0]]} int={o['int']} nf={o['nf']} fc={o['fc']}", "mwa-flags")
    if "data_array_dtype" in opt:
        ctx.check(u.data_array.dtype == opt["data_array_dtype"], "data type", "mwa-dtype")
    if "nsample_array_dtype" in opt:
        ctx.check(u.nsample_array.dtype == opt["nsample_array_dtype"], "sample count type", "mwa-dtype")


def events(ctx, o, opt):
    ctx.ev("mwax" if o["mwax"] else "legacy")
    if not o["mwax"]:
        ctx.ev("legacy_f4" if o["scale"] == "f4" else "legacy_bscale")
    for n, e in (("remove_dig_gains", "gains"), ("remove_coarse_band", "pfb"), ("correct_cable_len", "cable"), ("flag_init", "flag_init")):
        if opt.get(n, True):
            ctx.ev(e)
    if opt.get("flag_init", True):
        if opt.get("start_flag", "goodtime") == "goodtime":
            ctx.ev("goodtime")
        if opt.get("end_flag"):
            ctx.ev("end_flag")
        if opt.get("flag_dc_offset", True):
            ctx.ev("dc")
        if opt.get("edge_width", 80e3):
            ctx.ev("edge")
    ctx.ev("propagate" if opt.get("propagate_coarse_flags", True) else "nopropagate")
    if o["flag"].any():
        ctx.ev("flagged_ants")
        if not opt.get("remove_flagged_ants", True):
            ctx.ev("keep_flagged")
    if opt.get("data_array_dtype") is np.complex128:
        ctx.ev("dtype128")
    ctx.ev("cable_EL")
    ctx.ev("cable_raw")


def mapping(ctx, mwax, how=None):
    rng = ctx.rng
    full = int(gen.pick(rng, [32, 16, 128, 64])) if not mwax else int(gen.pick(rng, [32, 16, 32, 128]))
    o = observation(rng, mwax, full=full)
    nf = int(rng.integers(1, 5))
    files, meta = layout(ctx, o, nf)
    opt = options(rng, o)
    how = how or gen.pick(rng, ["plain"] * 5 + ["phase", "meta", "read", "aoflag", "aoflag", "ppds"])
    if mwax and how == "aoflag":
        how = "plain"
    nt = len(o["times"])
    ctx.case("mwax" if mwax else "legacy", o["nc"], tuple(o["have"]), nf, nt, tuple(sorted((k, str(v)) for k, v in opt.items())), how)
    if how == "refuse":
        if rng.integers(2):
            m2 = os.path.join(ctx.tmp, "other.metafits")
            metafits(o, m2)
            files.append(m2)
            what = "multi_refused"
        else:
            o2 = dict(o)
            c = [x for x in o["chans"] if x not in o["have"]]
            if not c:
                raise Skip("no free channel")
            n = file_number(o, c[0])
            fn = os.path.join(ctx.tmp, f"1131733552_20151116182537_ch{n:03d}_000.fits" if mwax else f"1131733552_20151116182537_gpubox{n:02d}_00.fits")
            blk = np.array([unpacked(value(rng, 0), mwax, o["ant_of_row"]) for _ in range(nf)])
            writefile(o2, fn, [o["tt"][0] + o["int"] / 4], [blk])
            files.append(fn)
            what = "unaligned_refused"
        try:
            read(files, **opt)
        except ValueError:
            ctx.ev(what)
            return
        ctx.check(False, f"{what}: accepted", "mwa-refuse")
        return
    if how == "ppds":
        # the metadata can come from the ppds file instead of the metafits file
        p = os.path.join(ctx.tmp, "1131733552_metafits_ppds.fits")
        metafits(o, p, ppds=True)
        files = [p if f == meta else f for f in files]
        if opt.get("start_flag", "goodtime") == "goodtime" and opt.get("flag_init", True):
            opt["start_flag"] = 0.0
        u = read(files, **opt)
        compare(ctx, u, o, opt, "ppds")
        ctx.ev("ppds")
        return
    if how == "aoflag":
        want = list(expected(o, opt))
        fl = want[1].copy()
        for ci, c in enumerate(o["have"]):
            ln = gen.pick(rng, ["same", "short", "long"])
            nfl = nt + {"same": 0, "short": -1, "long": 1}[ln]
            if nfl < 1:
                ln, nfl = "same", nt
            ctx.ev({"same": "aoflag", "short": "aoflag_short", "long": "aoflag_long"}[ln])
            ao = rng.random((nfl * len(PAIRS), nf)) < 0.3
            t = fits.BinTableHDU.from_columns([fits.Column(name="FLAGS", format=f"{nf}X", array=ao)])
            fn = os.path.join(ctx.tmp, f"1131733552_{file_number(o, c):02d}.mwaf")
            fits.HDUList([fits.PrimaryHDU(), t]).writeto(fn)
            files.insert(int(rng.integers(len(files) + 1)), fn)
            ao = ao.reshape(nfl, len(PAIRS), nf)
            sl = slice(ci * nf, (ci + 1) * nf)
            if nfl < nt:  # same end
                fl[nt - nfl :, :, sl] |= ao[..., None]
            else:
                fl[:, :, sl] |= ao[:nt, ..., None]
        want[1] = fl
        u = read(files, **opt)
        compare(ctx, u, o, opt, "aoflag", want=want)
        events(ctx, o, opt)
        return
    if how == "read":
        site()
        u = UVData()
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            u.read(files, **opt)
        ctx.ev("via_read")
    else:
        u = read(files, **opt)
    compare(ctx, u, o, opt, how)
    events(ctx, o, opt)
    if how == "phase":
        o["radec"] = (float(rng.uniform(0, 360)), float(rng.uniform(-60, 10)))
        os.remove(meta)
        metafits(o, meta)
        p = read(files, phase_to_pointing_center=True, **opt)
        u2 = u.copy()
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            u2.phase(lon=np.deg2rad(o["radec"][0]), lat=np.deg2rad(o["radec"][1]), epoch="J2000", phase_frame="fk5", cat_name="field_x")
        ctx.check(np.allclose(p.data_array, u2.data_array, rtol=1e-4, atol=1e-2) and np.allclose(p.uvw_array, u2.uvw_array, atol=1e-5), "phasing to the pointing centre differs from phasing afterwards", "mwa-phase")
        e = p.phase_center_catalog[int(p.phase_center_id_array[0])]
        ctx.check(np.isclose(e["cat_lon"], np.deg2rad(o["radec"][0])) and np.isclose(e["cat_lat"], np.deg2rad(o["radec"][1])) and e["cat_frame"] == "fk5" and e["cat_name"] == "field_x", f"phase centre {e}", "mwa-phase")
        ctx.ev("phased")
    elif how == "meta":
        m = read(files, read_data=False, **opt)
        ctx.check(m.data_array is None and m.flag_array is None, "read_data=False read the data", "mwa-metaonly")
        s1, s2 = canon.snap(u), canon.snap(m)
        for n in ("data_array", "flag_array", "nsample_array"):
            s1.pop(n, None)
            s2.pop(n, None)
        dd = [x for x in canon.diff(s1, s2, exact=True, ignore={"history"})]
        ctx.check(not dd, f"metadata read alone differ: {dd[:3]}", "mwa-metaonly")
        ctx.ev("meta_only")


# ---- Van Vleck --------------------------------------------------------------
TH = np.arange(-6.5, 7.0, 1.0)
_gx, _gw = np.polynomial.legendre.leggauss(24)


def quant_var(s):
    """E[Q(x)^2] for x ~ N(0, s^2), Q rounding to integers clipped at +-7"""
    p = np.diff(np.concatenate([[0.0], ndtr(TH / s), [1.0]]))
    return float(np.sum(p * np.arange(-7, 8) ** 2))


def quant_cov(s1, s2, r):
    """E[Q(x) Q(y)] integrated numerically over x with the conditional expectation of Q(y)"""
    ed = np.concatenate([[min(-12 * s1, -8.0)], TH, [max(12 * s1, 8.0)]])
    tot = 0.0
    sc = s2 * np.sqrt(1 - r * r)
    for q, (a, b) in zip(range(-7, 8), zip(ed[:-1], ed[1:], strict=True), strict=True):
        n = 6 if (b - a) > 2 else 2
        sub = np.linspace(a, b, n + 1)
        for lo, hi in zip(sub[:-1], sub[1:], strict=True):
            x = (hi - lo) / 2 * _gx + (hi + lo) / 2
            w = (hi - lo) / 2 * _gw
            pdf = np.exp(-0.5 * (x / s1) ** 2) / (s1 * np.sqrt(2 * np.pi))
            ey = -7 + ndtr((r * s2 / s1 * x[:, None] - TH[None]) / sc).sum(1)
            tot += q * np.sum(w * pdf * ey)
    return tot


def vv_fn(ctx):
    from pyuvdata.uvdata.mwa_corr_fits import sighat_vector, van_vleck_autos, van_vleck_crosses_int

    rng = ctx.rng
    n = int(rng.integers(1, 12))
    s1, s2 = rng.uniform(0.8, 5.0, n), rng.uniform(0.8, 5.0, n)
    r = rng.uniform(-0.7, 0.7, n)
    if rng.integers(3) == 0:
        r[int(rng.integers(n))] = 0.0
    sh = np.sqrt([quant_var(s) for s in s1])
    ctx.case("vv_fn", n, round(float(s1[0]), 3))
    ctx.check(np.allclose(sighat_vector(s1), sh, rtol=1e-9), f"quantized sigma {sighat_vector(s1)} instead of {sh}", "vv-sighat")
    ctx.check(np.allclose(van_vleck_autos(sh.copy()), s1, rtol=1e-6), f"inverted sigma {van_vleck_autos(sh.copy())} instead of {s1}", "vv-autos")
    small = np.array([0.05, 0.3, 0.5, *sh])
    ctx.check(np.array_equal(van_vleck_autos(small.copy())[:3], small[:3]), "sigmas at or below 0.5 were changed", "vv-autos-small")
    kh = np.array([quant_cov(a, b, c) for a, b, c in zip(s1, s2, r, strict=True)])
    kh[r == 0] = 0.0
    got = van_vleck_crosses_int(k_arr=kh.copy(), sig1_arr=s1, sig2_arr=s2, cheby_approx=False)
    want = r * s1 * s2
    ctx.check(np.allclose(got, want, rtol=2e-4, atol=1e-6), lambda: f"inverted covariances {got} instead of {want} (sigmas {s1} {s2})", "vv-crosses")
    z = van_vleck_crosses_int(k_arr=kh.copy(), sig1_arr=np.where(np.arange(n) == 0, 0.0, s1), sig2_arr=s2, cheby_approx=False)
    ctx.check(np.allclose(z[1:], want[1:], rtol=2e-4, atol=1e-6) and abs(abs(z[0]) - abs(kh[0])) < 1e-12, "products with zero auto-correlations", "vv-crosses-zero")
    ctx.ev("vv_fn")


def vv(ctx):
    """whole reader with Van Vleck correction; few antennas are live so that the truth can be integrated"""
    rng = ctx.rng
    mwax = bool(rng.integers(2))
    o = observation(rng, mwax, ncoarse=int(rng.integers(2, 4)), full=32)
    o["int"] = 2.0
    live = np.sort(rng.choice(NA, int(rng.integers(3, 5)), replace=False))
    o["flag"] = ~np.isin(np.arange(NA), live)
    o["scale"] = 0.5 if not mwax else None
    nsamp = 2 * 40e3 * o["int"]
    sig = rng.uniform(1.0, 4.0, (NA, 2))
    if rng.integers(2):  # outside of the range of the polynomial approximation
        sig[live[0], 0] = gen.pick(rng, [0.75, 5.0])
    rr, ri = {}, {}
    L = [(a, p) for a in live for p in range(2)]
    for i, x in enumerate(L):
        for y in L[i + 1 :]:
            rr[x, y], ri[x, y] = float(rng.uniform(-0.2, 0.2)), float(rng.uniform(-0.2, 0.2))
    small = None
    if rng.integers(3) == 0:
        small = int(gen.pick(rng, list(live)))
    true = np.zeros((NA, 2, NA, 2), complex)
    raw = np.zeros((NA, 2, NA, 2), complex)
    for a, p in L:
        true[a, p, a, p] = nsamp * sig[a, p] ** 2
        raw[a, p, a, p] = nsamp * quant_var(sig[a, p])
    for (x, y), r in rr.items():
        sx, sy = sig[x], sig[y]
        tv = nsamp * sx * sy * (r + 1j * ri[x, y])
        rv = nsamp * (quant_cov(sx, sy, r) + 1j * quant_cov(sx, sy, ri[x, y]))
        true[(*x, *y)], raw[(*x, *y)] = tv, rv
        true[(*y, *x)], raw[(*y, *x)] = tv.conjugate(), rv.conjugate()
    smallkey = [None]
    cheby = bool(rng.integers(3))
    flag_ants = bool(rng.integers(2))

    def val(_, key):
        if small is None or (smallkey[0] is not None and smallkey[0] != key):
            return np.rint(raw)
        smallkey[0] = key
        v = np.rint(raw)
        v = v.copy()
        for p in range(2):
            v[small, p, small, p] = np.rint(nsamp * 0.1)  # well below the threshold of 0.25
        for a, p in L:
            if a != small:
                v[a, p, small, :] = 0
                v[small, :, a, p] = 0
        v[small, 0, small, 1] = v[small, 1, small, 0] = 0
        return v

    o["value"] = val
    # no line offset trick here: redundant products keep their value
    files, meta = layout(ctx, o, int(rng.integers(1, 3)), only=int(rng.integers(1, 3)))
    opt = {"remove_dig_gains": bool(rng.integers(2)), "remove_coarse_band": bool(rng.integers(2)), "correct_cable_len": bool(rng.integers(2)), "flag_init": False, "propagate_coarse_flags": False,
           "remove_flagged_ants": bool(rng.integers(2))}
    if rng.integers(2):
        opt["data_array_dtype"] = np.complex128
    ctx.case("vv", mwax, cheby, flag_ants, small is not None, tuple(live.tolist()), round(float(sig[live[0], 0]), 3))
    u = read(files, correct_van_vleck=True, cheby_approx=cheby, flag_small_auto_ants=flag_ants, **opt)
    ot = dict(o)
    t2 = {}
    for c, vals in o["truth"].items():
        t2[c] = {}
        for k, _ in vals.items():
            x = true.copy()
            if small is not None and (c, *k) == smallkey[0]:
                for p in range(2):
                    x[small, p, small, p] = np.rint(nsamp * 0.1)
                for a, p in L:
                    if a != small:
                        x[a, p, small, :] = 0
                        x[small, :, a, p] = 0
                x[small, 0, small, 1] = x[small, 1, small, 0] = 0
            t2[c][k] = x
    ot["truth"] = t2
    data, flags, ns, freqs = expected(ot, opt)
    hit = (A1 == small) | (A2 == small)
    if small is not None:
        if flag_ants:
            ot["flag"] = o["flag"].copy()
            ot["flag"][small] = True
            flags = flags | hit[None, :, None, None]
            ctx.ev("vv_small_ant")
        else:
            c, t, f = smallkey[0]
            flags = flags.copy()
            flags[o["times"].index(t), hit, o["have"].index(c) * o["nf"] + f] = True
            ctx.ev("vv_small_sample")
    # products of flagged antennas are not corrected and are not compared; all of them are zero here
    compare(ctx, u, ot, opt, f"van Vleck cheby={cheby}", want=(data, flags, ns, freqs), rtol=5e-4 if cheby else 2e-4)
    ctx.ev("vv_cheby" if cheby else "vv_int")


def cotter(ctx):
    rng = ctx.rng
    f = [os.path.join(TDIR, x) for x in ("1131733552.metafits", "1131733552_20151116182537_mini_gpubox01_00.fits")]
    if rng.integers(2):
        f = f[::-1]
    ctx.case("cotter", f[0][-8:])
    u = read(f, correct_cable_len=True, remove_dig_gains=False, remove_coarse_band=False, remove_flagged_ants=False)
    with fits.open(os.path.join(TDIR, "1131733552_mini_cotter.uvfits")) as h:
        d = h[0].data
        vis = np.squeeze(d["DATA"]).astype(float)
        z = vis[..., 0] - 1j * vis[..., 1]  # the uvw convention of uvfits is opposite
        bl = np.round(d["BASELINE"]).astype(int)
        hd = h[0].header
    ctx.check(len(bl) == u.Nblts, "records", "cotter-records")
    au = u.ant_1_array == u.ant_2_array
    z = z.reshape(len(bl), 4)
    cr = ~au
    x = u.data_array[:, 0]
    ok = np.allclose(x[cr], z[cr], atol=1e-4, rtol=0)
    ctx.check(ok, lambda: f"cross-correlations differ from the independently converted file by up to {np.abs(x[cr] - z[cr]).max()}", "cotter-data")
    ctx.check(np.allclose(x[au][:, :2], z[au][:, :2], atol=1e-4), "auto-correlations differ from the independently converted file", "cotter-autos")
    ctx.check(abs(hd["CRVAL4"] - u.freq_array[0]) < 1, f"frequency {u.freq_array[0]} instead of {hd['CRVAL4']}", "cotter-freq")
    ctx.ev("cotter")


SCENARIOS = [
    Scenario("legacy", lambda c: mapping(c, False), 110, 1000),
    Scenario("mwax", lambda c: mapping(c, True), 70, 600),
    Scenario("refuse", lambda c: mapping(c, bool(c.rng.integers(2)), "refuse"), 12, 40),
    Scenario("vv", vv, 40, 300),
    Scenario("vv_fn", vv_fn, 60, 600),
    Scenario("cotter", cotter, 2, 4),
]
