"""Generators of valid pyuvdata objects (workload side of the monitors).

Every object is built through the public constructors only.  Every visibility /
gain / flag sample carries a value that is unique inside the object, so that an
observed sample identifies the sample it came from.
"""
from __future__ import annotations

import warnings

import numpy as np
from astropy import units
from astropy.coordinates import EarthLocation
from astropy.time import Time

from pyuvdata import Telescope, UVData

SITES = [
    (-30.72, 21.43, 1050.0),
    (34.08, -107.62, 2124.0),
    (-26.70, 116.67, 377.0),
    (19.82, -155.48, 4080.0),
    (52.91, 6.87, 15.0),
]

LIN = [-5, -6, -7, -8]
CIRC = [-1, -2, -3, -4]
STOKES = [1, 2, 3, 4]


def pick(rng, seq):
    return seq[int(rng.integers(len(seq)))]


def unique_complex(rng, shape, dtype=np.complex128):
    """Unique, exactly float32-representable complex values, never zero."""
    n = int(np.prod(shape)) if len(shape) else 1
    idx = rng.permutation(n) + 1
    re = idx.astype(float) / 8.0
    im = rng.integers(-4000, 4000, n).astype(float) / 8.0 + 1 / 16.0
    sgn = rng.choice([-1.0, 1.0], n)
    return (sgn * re + 1j * im).reshape(shape).astype(dtype)


def make_telescope(rng, nants=None, antnums=None, x_orientation="rand", spread=200.0,
                   diameters=None, name=None, site=None):
    if antnums is not None:
        nants = len(antnums)
    nants = int(rng.integers(3, 9)) if nants is None else nants
    lat, lon, alt = pick(rng, SITES) if site is None else site
    loc = EarthLocation.from_geodetic(
        lon=lon * units.deg, lat=lat * units.deg, height=alt * units.m
    )
    if antnums is None:
        mode = pick(rng, ["contig", "sparse", "shuffled", "big"])
        if mode == "contig":
            antnums = np.arange(nants)
        elif mode == "sparse":
            antnums = np.sort(rng.choice(200, nants, replace=False))
        elif mode == "shuffled":
            antnums = rng.choice(60, nants, replace=False)
        else:
            antnums = np.sort(rng.choice(1500, nants, replace=False))
    antnums = np.asarray(antnums, dtype=int)
    enu = rng.uniform(-spread, spread, (nants, 3)) * np.array([1, 1, 0.05])
    # keep antennas well apart so that no cross baseline has a near-zero length
    for i in range(nants):
        enu[i, 0] += 37.0 * i
    from pyuvdata.utils import ECEF_from_ENU

    center = np.array([loc.x.to_value("m"), loc.y.to_value("m"), loc.z.to_value("m")])
    pos = ECEF_from_ENU(enu, center_loc=loc) - center
    names = [f"ANT{a}" for a in antnums]
    if x_orientation == "rand":
        x_orientation = pick(rng, ["east", "north"])
    kw = {}
    if diameters is None:
        diameters = bool(rng.integers(2))
    if diameters:
        kw["antenna_diameters"] = rng.uniform(5, 20, nants).round(3)
    tel = Telescope.new(
        name=name or f"MOCK{int(rng.integers(1000))}",
        location=loc,
        antenna_positions=pos,
        antenna_names=names,
        antenna_numbers=antnums,
        instrument=f"INST{int(rng.integers(100))}",
        x_orientation=x_orientation,
        **kw,
    )
    return tel


def _lst0(jd, lon_deg):
    """jd of the passage through sidereal time 0 nearest to jd (to about a second)"""
    T = (jd - 2451545.0) / 36525
    turns = 0.7790572732640 + 1.00273781191135448 * (jd - 2451545.0) + (0.014506 + 4612.156534 * T + 1.3915817 * T**2) / 1296000 + lon_deg / 360
    return jd - ((turns + 0.5) % 1.0 - 0.5) / 1.00273781191135448


def make_times(rng, ntimes=None, uniform=None, dt=None, lon=None):
    ntimes = int(rng.integers(1, 6)) if ntimes is None else ntimes
    t0 = 2457000.0 + float(rng.uniform(0, 1500))
    dt = float(pick(rng, [1.0, 2.0, 8.0, 10.7])) if dt is None else dt  # seconds
    uniform = bool(rng.integers(3)) if uniform is None else uniform
    if uniform:
        t = t0 + np.arange(ntimes) * dt / 86400.0
    else:
        t = t0 + np.cumsum(rng.uniform(1.2, 5.0, ntimes)) * dt / 86400.0
    edge = int(rng.integers(8))  # some observations pass through sidereal time 0, midnight or noon
    if edge < 3 and ntimes > 1:
        i = int(rng.integers(ntimes - 1))
        mid = t[i] + rng.uniform(0.2, 0.8) * (t[i + 1] - t[i])
        if edge == 0:
            t = t + (np.round(2 * mid) / 2 - mid)
        elif lon is not None:
            t = t + (_lst0(mid, lon) - mid)
    return t, dt


def make_freqs(rng, nspw=None, even=False, chans=None, spw_ids=None, ascending=None):
    """freq_array, channel_width, flex_spw_id_array."""
    nspw = int(pick(rng, [1, 1, 2, 3])) if nspw is None else nspw
    if spw_ids is None:
        spw_ids = list(range(nspw)) if rng.integers(2) else [
            int(v) for v in rng.choice(40, nspw, replace=False)
        ]
    f, w, s = [], [], []
    start = float(rng.integers(100, 160)) * 1e6
    for k in range(nspw):
        nch = int(rng.integers(1, 6)) if chans is None else chans
        cw = float(pick(rng, [40e3, 97.65625e3, 1e6]))
        asc = bool(rng.integers(4)) if ascending is None else ascending
        if even:
            fr = start + np.arange(nch) * cw
            cws = np.full(nch, cw)
        else:
            mode = pick(rng, ["even", "even", "gap", "var"])
            if mode == "even" or nch < 3:
                fr = start + np.arange(nch) * cw
                cws = np.full(nch, cw)
            elif mode == "gap":
                fr = start + np.sort(rng.choice(3 * nch, nch, replace=False)) * cw
                cws = np.full(nch, cw)
            else:
                cws = cw * rng.integers(1, 4, nch).astype(float)
                fr = start + np.cumsum(cws) - cws / 2
        if not asc:
            fr = fr[::-1].copy()
            cws = cws[::-1].copy()
        f.append(fr)
        w.append(cws)
        s.append(np.full(nch, spw_ids[k]))
        start = float(np.max(fr)) + float(rng.integers(5, 20)) * 1e6
    return np.concatenate(f), np.concatenate(w), np.concatenate(s)


def make_pols(rng, full=None, kind=None):
    kind = pick(rng, ["lin", "lin", "circ", "stokes"]) if kind is None else kind
    base = {"lin": LIN, "circ": CIRC, "stokes": STOKES}[kind]
    full = bool(rng.integers(2)) if full is None else full
    if full:
        p = list(base)
    else:
        # keep cross pols in pairs so that the set is closed under conjugation
        if kind == "stokes":
            n = int(rng.integers(1, 5))
            p = list(rng.choice(base, n, replace=False))
        else:
            p = []
            if rng.integers(2):
                p.append(base[0])
            if rng.integers(2):
                p.append(base[1])
            if rng.integers(2):
                p += base[2:]
            if not p:
                p = [base[0]]
    p = [int(v) for v in p]
    if rng.integers(2):
        p = [p[i] for i in rng.permutation(len(p))]
    return np.array(p, dtype=int)


def make_antpairs(rng, antnums, nbl=None, autos=None, orient=True):
    n = len(antnums)
    pairs = [(int(antnums[i]), int(antnums[j])) for i in range(n) for j in range(i, n)]
    autos = bool(rng.integers(3)) if autos is None else autos
    if not autos:
        pairs = [p for p in pairs if p[0] != p[1]]
    nbl = int(rng.integers(1, min(len(pairs), 10) + 1)) if nbl is None else min(nbl, len(pairs))
    sel = rng.choice(len(pairs), nbl, replace=False)
    pairs = [pairs[i] for i in sel]
    if orient:
        pairs = [p[::-1] if rng.integers(2) else p for p in pairs]
    return pairs


def zen_catalog(rng, tel, t, n=1, kinds=None):
    """A phase center catalog with n entries of random kind."""
    lst0 = float(Time(t, format="jd", location=tel.location).sidereal_time("mean").rad)
    lat = float(tel.location.lat.rad)
    cat = {}
    ids = [int(v) for v in rng.choice(50, n, replace=False)] if rng.integers(2) else list(range(n))
    for k in range(n):
        kind = pick(rng, kinds or ["sidereal", "sidereal", "unprojected", "driftscan"])
        ent = {"cat_name": f"src{k}{'abc'[int(rng.integers(3))]}", "cat_type": kind}
        if kind == "unprojected":
            ent.update(cat_lon=0.0, cat_lat=np.pi / 2, cat_frame="altaz", cat_epoch=None)
        elif kind == "driftscan":
            ent.update(
                cat_lon=float(rng.uniform(0, 2 * np.pi)),
                cat_lat=float(rng.uniform(0.8, np.pi / 2 - 0.05)),
                cat_frame="altaz", cat_epoch=None,
            )
        else:
            frame = pick(rng, ["icrs", "icrs", "fk5"])
            ent.update(
                cat_lon=float((lst0 + rng.uniform(-0.6, 0.6)) % (2 * np.pi)),
                cat_lat=float(np.clip(lat + rng.uniform(-0.5, 0.5), -1.4, 1.4)),
                cat_frame=frame,
                cat_epoch=None if frame == "icrs" and rng.integers(3) == 0 else 2000.0,
            )
        ent["info_source"] = "user"
        cat[ids[k]] = ent
    return cat


def make_uvdata(
    rng, *, tel=None, ntimes=None, nspw=None, even_freq=False, chans=None, pols=None,
    layout=None, nphase=None, kinds=None, nbl=None, autos=None, orient=True,
    antnums=None, dtype=None, extras=True, nants=None, uniform_time=None, dt=None,
    ascending=None, spw_ids=None, x_orientation="rand", real_autos=True, diameters=None,
    metadata_only=False, antpairs=None, times=None, vis_units=None, flag_p=None,
    int_time=None, nsample="rand",
):
    if tel is None:
        tel = make_telescope(rng, nants=nants, antnums=antnums,
                             x_orientation=x_orientation, diameters=diameters)
    if times is None:
        utimes, dt = make_times(rng, ntimes=ntimes, uniform=uniform_time, dt=dt, lon=tel.location.lon.deg)
    else:
        utimes = np.asarray(times)
        dt = dt or 10.0
    freq, cw, spw = make_freqs(rng, nspw=nspw, even=even_freq, chans=chans,
                               ascending=ascending, spw_ids=spw_ids)
    if pols is None:
        pols = make_pols(rng)
    if antpairs is None:
        antpairs = make_antpairs(rng, tel.antenna_numbers, nbl=nbl, autos=autos, orient=orient)
    layout = layout or pick(rng, ["time", "bl", "shuffle", "ragged"])
    nb, nt = len(antpairs), len(utimes)
    if layout == "time":
        grid = [(t, b) for t in range(nt) for b in range(nb)]
    elif layout == "bl":
        grid = [(t, b) for b in range(nb) for t in range(nt)]
    else:
        grid = [(t, b) for t in range(nt) for b in range(nb)]
        if layout == "ragged" and len(grid) > 2:
            keep = rng.choice(len(grid), max(1, int(len(grid) * 0.7)), replace=False)
            grid = [grid[i] for i in keep]
        else:
            grid = [grid[i] for i in rng.permutation(len(grid))]
    ti = np.array([g[0] for g in grid])
    bi = np.array([g[1] for g in grid])
    tarr = utimes[ti]
    ap = np.array([antpairs[b] for b in bi])
    if int_time is None:
        it = np.full(len(grid), dt) if rng.integers(2) else dt * rng.integers(1, 4, nb)[bi].astype(float)
    else:
        it = np.full(len(grid), float(int_time))
    shape = (len(grid), len(freq), len(pols))
    dtype = dtype or (np.complex64 if rng.integers(2) else np.complex128)
    data = unique_complex(rng, shape, dtype)
    if real_autos:
        auto = ap[:, 0] == ap[:, 1]
        rp = np.isin(pols, [-1, -2, -5, -6, 1, 2, 3, 4])
        m = np.ix_(auto, np.arange(len(freq)), rp)
        data[m] = data[m].real
    flag_p = pick(rng, [0.0, 0.1, 0.5]) if flag_p is None else flag_p
    flags = rng.random(shape) < flag_p
    if nsample == "rand":
        ns = (rng.integers(1, 9, shape) / 4.0).astype(np.float32)
    else:
        ns = np.full(shape, float(nsample), dtype=np.float32)
    nphase = int(pick(rng, [1, 1, 2, 3])) if nphase is None else nphase
    nphase = min(nphase, len(grid))
    cat = zen_catalog(rng, tel, float(utimes[0]), n=nphase, kinds=kinds)
    cat_ids = list(cat)
    # phase center: function of the baseline-time index
    pcid = np.array([cat_ids[int(rng.integers(nphase))] for _ in grid])
    if nphase > 1 and len(grid) >= nphase:
        pcid[:nphase] = cat_ids
    kw = {}
    if not metadata_only:
        kw = dict(data_array=data, flag_array=flags, nsample_array=ns)
    vis_units = vis_units or pick(rng, ["uncalib", "Jy", "K str"])
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        uv = UVData.new(
            freq_array=freq, polarization_array=np.asarray(pols), times=tarr,
            telescope=tel, antpairs=ap, do_blt_outer=False, integration_time=it,
            channel_width=cw, flex_spw_id_array=spw, phase_center_catalog=cat,
            phase_center_id_array=pcid, vis_units=vis_units,
            history="mock history. ", **kw,
        )
    if extras:
        if rng.integers(2):
            uv.extra_keywords = {"FOO": int(rng.integers(100)), "BAR": float(rng.integers(1000)) / 8,
                                 "BAZ": "text value", "QUX": bool(rng.integers(2))}
        if vis_units != "uncalib" and rng.integers(2):
            uv.pol_convention = pick(rng, ["sum", "avg"])
    return uv


LINJ = [-5, -6, -7, -8]
CIRCJ = [-1, -2, -3, -4]


def make_jones(rng, full=None):
    base = pick(rng, [LINJ, LINJ, CIRCJ])
    n = 4 if full else int(pick(rng, [1, 2, 2, 4]))
    j = list(base[:n]) if n in (2, 4) else [base[int(rng.integers(2))]]
    if rng.integers(3) == 0:
        j = [j[i] for i in rng.permutation(len(j))]
    return np.array(j, dtype=int)


def make_uvcal(
    rng, *, tel=None, wide=None, cal_type=None, style=None, time_range=None, nspw=None, chans=None,
    even_freq=False, jones=None, ntimes=None, ants=None, quality=None, total_quality=None,
    catalog=None, extras=True, ascending=None, spw_ids=None, dtype=np.complex128, flag_p=None,
    gain_convention=None, times=None, uniform_time=None, scan=None, nants=None,
):
    from pyuvdata import UVCal

    if tel is None:
        tel = make_telescope(rng, nants=nants)
    wide = (rng.integers(4) == 0) if wide is None else wide
    if cal_type == "delay":
        wide = True
    if cal_type is None:
        cal_type = pick(rng, ["gain", "delay"]) if wide else "gain"
    style = style or pick(rng, ["sky", "redundant"])
    if times is None:
        times, dt = make_times(rng, ntimes=ntimes, uniform=uniform_time, lon=tel.location.lon.deg)
    else:
        times = np.asarray(times)
        dt = 10.0
    use_range = (rng.integers(4) == 0) if time_range is None else time_range
    nums = [int(a) for a in tel.antenna_numbers]
    if ants is None:
        k = int(rng.integers(max(1, len(nums) - 3), len(nums) + 1))
        ants = [nums[i] for i in (rng.permutation(len(nums))[:k] if rng.integers(2) else sorted(rng.choice(len(nums), k, replace=False)))]
    jones = make_jones(rng) if jones is None else np.asarray(jones)
    kw = {}
    nt = len(times)
    if use_range:
        half = dt / 86400 * 0.45
        kw["time_range"] = np.stack([times - half, times + half], axis=1)
        kw["integration_time"] = np.full(nt, dt)
    else:
        kw["time_array"] = times
        kw["integration_time"] = np.full(nt, dt) * rng.integers(1, 3, nt)
    if wide:
        n = int(rng.integers(1, 4)) if nspw is None else nspw
        start = 100e6 + np.cumsum(rng.integers(3, 9, n)) * 1e6
        kw["freq_range"] = np.stack([start, start + 1e6], axis=1)
        nf = n
    else:
        f, w, s = make_freqs(rng, nspw=nspw, even=even_freq, chans=chans, ascending=ascending, spw_ids=spw_ids)
        kw.update(freq_array=f, channel_width=w, flex_spw_id_array=s)
        nf = len(f)
    shape = (len(ants), nf, nt, len(jones))
    data = {"flag_array": rng.random(shape) < (pick(rng, [0.0, 0.15, 0.5]) if flag_p is None else flag_p)}
    if cal_type == "gain":
        data["gain_array"] = unique_complex(rng, shape, dtype)
    else:
        n = int(np.prod(shape))
        data["delay_array"] = ((rng.permutation(n) + 1) * 1e-9 * rng.choice([-1, 1], n)).reshape(shape)
    if (rng.integers(2) if quality is None else quality):
        data["quality_array"] = (rng.permutation(int(np.prod(shape))) + 0.25).reshape(shape)
    if (rng.integers(3) == 0 if total_quality is None else total_quality):
        data["total_quality_array"] = (rng.permutation(int(np.prod(shape[1:]))) + 0.75).reshape(shape[1:])
    if style == "sky":
        kw["ref_antenna_name"] = f"ANT{nums[0]}" if tel.antenna_names[0].startswith("ANT") else str(tel.antenna_names[0])
        kw["sky_catalog"] = "GLEAM"
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        uvc = UVCal.new(
            cal_style=style, cal_type=cal_type, gain_convention=gain_convention or pick(rng, ["divide", "multiply"]),
            jones_array=jones, telescope=tel, ant_array=np.array(ants), data=data, history="cal history. ", **kw,
        )
        if wide and rng.integers(2):
            ids = np.sort(rng.choice(30, nf, replace=False))
            uvc.spw_array = ids
        if extras:
            if rng.integers(3) == 0:
                uvc.extra_keywords = {"FUN": int(rng.integers(50)), "TEXT": "hello", "VAL": 2.5}
            if rng.integers(3) == 0:
                uvc.gain_scale = pick(rng, ["Jy", "K str", "uncalib"])
                uvc.pol_convention = pick(rng, ["sum", "avg"])
            if rng.integers(3) == 0:
                uvc.observer = "someone"
                uvc.git_hash_cal = "abcdef"
                uvc.git_origin_cal = "origin"
            if style == "sky" and rng.integers(3) == 0:
                uvc.Nsources = 7
                uvc.baseline_range = np.array([10.0, 900.0])
                uvc.diffuse_model = "diff"
            if (rng.integers(4) == 0 if catalog is None else catalog):
                cid = uvc._add_phase_center("calsrc", cat_type="sidereal", cat_lon=1.0, cat_lat=-0.4, cat_frame="icrs", cat_epoch=2000.0)
                uvc.phase_center_id_array = np.full(nt, cid)
            if (rng.integers(4) == 0 if scan is None else scan):
                uvc.scan_number_array = np.arange(nt) // 2 + 1
            if style == "sky" and rng.integers(4) == 0:
                uvc.ref_antenna_name = "various"
                uvc.ref_antenna_array = np.array([ants[int(rng.integers(len(ants)))] for _ in range(nt)])
        uvc.check()
    return uvc


def make_beam(
    rng, *, beam_type=None, grid=None, nfeeds=None, pols=None, nfreq=None, phased=None, even_freq=True, opt=None,
    even_grid=True, bv=None, x_orientation="rand", full_sky=None, ordering=None, keep_vec=None, naz=None, nza=None, asc=None,
    smooth=False, norm=None, n3=None,
):
    """A random UVBeam; every sample value is unique (unless smooth)."""
    from pyuvdata import UVBeam

    beam_type = beam_type or pick(rng, ["efield", "power"])
    grid = grid or pick(rng, ["az_za", "az_za", "healpix"])
    nf = int(rng.integers(1, 5)) if nfreq is None else nfreq
    df = float(pick(rng, [1e6, 2.5e6]))
    f0 = float(rng.integers(100, 200)) * 1e6
    if even_freq:
        fr = f0 + np.arange(nf) * df
    else:
        fr = f0 + np.sort(rng.choice(3 * nf, nf, replace=False)) * df
    if not (rng.integers(5) if asc is None else asc):
        fr = fr[::-1].copy()
    kw = dict(telescope_name=f"TEL{int(rng.integers(100))}", data_normalization=norm or pick(rng, ["physical", "peak"]), freq_array=fr,
              feed_name="feed", feed_version=f"{int(rng.integers(9))}.1", model_name="mod", model_version="v2", history="beam history. ",
              bandpass_array=rng.integers(1, 800, nf) / 8.0)
    xo = pick(rng, ["east", "north", None]) if x_orientation == "rand" else x_orientation
    kind = pick(rng, ["lin", "lin", "circ"])
    if xo is not None:
        kw["x_orientation"] = xo
    if beam_type == "efield":
        fe = ["x", "y"] if kind == "lin" else ["r", "l"]
        if kind == "lin" and xo is not None and rng.integers(3) == 0:
            fe = ["e", "n"]
        n = int(pick(rng, [1, 2, 2, 2])) if nfeeds is None else nfeeds
        fe = fe if n == 2 else [pick(rng, fe)]
        if rng.integers(3) == 0:
            fe = fe[::-1]
        kw["feed_array"] = np.array(fe)
        npol = n
    else:
        if pols is None:
            kind = pick(rng, ["lin", "lin", "circ", "stokes"])
            base = {"lin": LIN, "circ": CIRC, "stokes": STOKES}[kind]
            n = int(rng.integers(1, 5))
            pols = list(base[:n]) if rng.integers(2) else [base[i] for i in rng.permutation(4)[:n]]
        kw["polarization_array"] = np.array(pols)
        npol = len(pols)
    if grid == "healpix":
        nside = int(pick(rng, [1, 2, 4]))
        npix = 12 * nside**2
        full = bool(rng.integers(2)) if full_sky is None else full_sky
        pix = np.arange(npix)
        if not full:
            pix = rng.choice(npix, int(rng.integers(2, npix)), replace=False)
            if rng.integers(3):
                pix = np.sort(pix)
        kw.update(nside=nside, healpix_pixel_array=pix, ordering=ordering or pick(rng, ["ring", "nested"]))
        pshape = (len(pix),)
    else:
        a = int(rng.integers(4, 13)) if naz is None else naz
        z = int(rng.integers(4, 8)) if nza is None else nza
        full = bool(rng.integers(2)) if full_sky is None else full_sky
        if full:
            a1 = np.arange(a) * (2 * np.pi / a)
            a2 = np.linspace(0, np.pi / pick(rng, [1, 2]), z)
        else:
            a1 = np.deg2rad(10.0 + 5 * np.arange(a))
            a2 = np.deg2rad(5.0 + 7 * np.arange(z))
        if not even_grid:
            a1 = np.sort(a1 + rng.uniform(0, 0.02, a))
        kw.update(axis1_array=a1, axis2_array=a2)
        pshape = (z, a)
    ph = (rng.integers(5) == 0) if phased is None else phased
    if ph and beam_type == "efield":
        ne = int(rng.integers(2, 4))
        kw.update(element_location_array=rng.integers(-40, 40, (2, ne)) / 8.0, delay_array=rng.integers(0, 32, ne) * 0.435e-9,
                  gain_array=rng.integers(1, 16, ne) / 8.0, coupling_matrix=unique_complex(rng, (ne, ne, npol, npol, nf)),
                  element_coordinate_system=pick(rng, ["n-e", "x-y"]))
    nvec = 2 if beam_type == "efield" else 1
    shape = (nvec, npol, nf) + pshape
    if beam_type == "efield":
        data = unique_complex(rng, shape) / 64
    else:
        data = (rng.permutation(int(np.prod(shape))) + 1.0).reshape(shape) / 8
        if np.isin(pols, [-3, -4, -7, -8]).any():
            data = data.astype(complex)
            for j, p in enumerate(pols):
                if p in (-3, -4, -7, -8):
                    data[:, j] = unique_complex(rng, data[:, j].shape)
    kw["data_array"] = data
    mode = bv or pick(rng, ["aligned", "aligned", "rotated"])
    if beam_type == "efield" and mode == "rotated":
        th = rng.uniform(0, 2 * np.pi, pshape)
        b = np.zeros((2, 2) + pshape)
        t2 = th + (np.pi / 2 if rng.integers(2) else rng.uniform(0.3, 2.8, pshape))  # directions need not be orthogonal
        b[0, 0], b[0, 1], b[1, 0], b[1, 1] = np.cos(th), np.sin(th), np.cos(t2), np.sin(t2)
        kw["basis_vector_array"] = b * (1 - 1e-12)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        b = UVBeam.new(**kw)
        if (rng.integers(2) if opt is None else opt):
            for a in ("receiver_temperature_array", "loss_array", "mismatch_array"):
                if rng.integers(2) or opt:
                    setattr(b, a, rng.integers(1, 4000, nf) / 8.0)
            if rng.integers(2) or opt:
                b.s_parameters = rng.integers(1, 4000, (4, nf)) / 8.0
            b.reference_impedance = 50.0 + float(rng.integers(50))
        if rng.integers(2):
            b.extra_keywords = {"KEY1": "text", "KEY2": int(rng.integers(90)), "KEY3": 1.5, "KEY4": bool(rng.integers(2))}
        if rng.integers(3) == 0:
            b.filename = [f"f{int(rng.integers(9))}.fits"]
            b._filename.form = (1,)
        b.check()
    return b


def fill_uvflag(rng, uf, weights=None, infs=False, flag_p=None):
    """Give a UVFlag object tagged contents (in place)."""
    if uf.mode == "flag":
        p = pick(rng, [0.1, 0.4, 0.8]) if flag_p is None else flag_p
        uf.flag_array = rng.random(uf.flag_array.shape) < p
    else:
        sh = uf.metric_array.shape
        m = (rng.permutation(int(np.prod(sh))) + 0.5).reshape(sh) * rng.choice([-1.0, 1.0], sh)
        if infs:
            m[rng.random(sh) < 0.1] = np.inf
        uf.metric_array = m
        w = pick(rng, ["ones", "rand", "zeros"]) if weights is None else weights
        uf.weights_array = np.ones(sh) if w == "ones" else rng.integers(0 if w == "zeros" else 1, 5, sh) * 0.5
        if uf.type == "waterfall" and rng.integers(3) == 0:
            uf.weights_square_array = (rng.permutation(int(np.prod(sh))) + 0.25).reshape(sh)
    return uf


def make_uvflag(rng, *, type=None, mode=None, uv=None, cal=None, collapsed=False, shuffle=None, infs=False, weights=None, flag_p=None, **kw):
    """A flag or metric object of the given type; uv/cal: the object it is made from."""
    from pyuvdata import UVFlag

    type = type or pick(rng, ["baseline", "antenna", "waterfall"])
    mode = mode or pick(rng, ["flag", "metric"])
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if uv is None and cal is None:
            if type == "antenna" or (type == "waterfall" and rng.integers(2)):
                cal = make_uvcal(rng, wide=False, time_range=False, cal_type="gain", nants=int(rng.integers(2, 6)), **kw)
            else:
                uv = make_uvdata(rng, nants=int(rng.integers(2, 6)), nphase=1, **kw)
        src = cal if (type == "antenna" or uv is None) else uv
        uf = UVFlag(src, mode=mode, waterfall=(type == "waterfall"), label=pick(rng, ["", "lbl"]))
        fill_uvflag(rng, uf, weights=weights, infs=infs, flag_p=flag_p)
        if collapsed and uf.Npols > 1:
            uf.collapse_pol(method="or" if mode == "flag" else "mean")
        if (rng.integers(3) == 0 if shuffle is None else shuffle) and type != "baseline" and uf.Ntimes > 1:
            order = rng.permutation(uf.Ntimes)
            ax = 0 if type == "waterfall" else 2
            uf.time_array, uf.lst_array = uf.time_array[order], uf.lst_array[order]
            for a in ("flag_array", "metric_array", "weights_array", "weights_square_array"):
                v = getattr(uf, a)
                if v is not None:
                    setattr(uf, a, np.take(v, order, axis=0 if a == "weights_square_array" else ax))
        if rng.integers(3) == 0:
            uf.extra_keywords = {"NUM": int(rng.integers(9)), "TXT": "words"}
        uf.check()
    return uf
