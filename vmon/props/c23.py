"""C23 LSTs, apparent positions and uvws follow from time and place."""
import numpy as np
from astropy import units as un
from astropy.coordinates import FK4, FK5, ICRS, Galactic, AltAz, EarthLocation, SkyCoord
from astropy.time import Time
from scipy.interpolate import CubicSpline

from pyuvdata import utils as uvu
from pyuvdata.utils import phasing as ph
from vmon import gen
from vmon.core import Scenario

RULE = (
    "random sites (Earth, all latitudes; Moon for LSTs and positions), shuffled and repeated times, sources anywhere including "
    "near the poles, all sidereal frames and epochs; results are compared with astropy sidereal times and AltAz directions, with "
    "the same call on single records, and with rotation matrices written out here. non-trivial = distinct (site, times, source, mode)"
)
REQUIRED = ["lst_erfa", "lst_astropy", "lst_moon", "lst_tuple", "app_sidereal", "app_driftscan", "app_ephem",
            "app_unprojected", "app_array", "app_moon", "app_pm", "roundtrip_icrs", "near_pole", "frame_pa", "pa_pole", "uvw_antpos", "uvw_from_enu", "uvw_to_enu", "uvw_rephase",
            "frames_icrs", "frames_fk5", "frames_fk4", "frames_galactic", "track", "rotations", "ephem_wrap", "ephem_exact", "parallactic"]
ASSUMPTIONS = ["astropy's sidereal times and AltAz/LunarTopo transformations are the references"]
TAU = 2 * np.pi


def _adiff(a, b):
    return np.abs((np.asarray(a) - np.asarray(b) + np.pi) % TAU - np.pi)


def _sep(ra1, dec1, ra2, dec2):
    """Angular separation by chord (accurate for small angles)."""
    a = np.stack([np.cos(dec1) * np.cos(ra1), np.cos(dec1) * np.sin(ra1), np.sin(dec1)], -1)
    b = np.stack([np.cos(dec2) * np.cos(ra2), np.cos(dec2) * np.sin(ra2), np.sin(dec2)], -1)
    return np.linalg.norm(a - b, axis=-1)


def _site(rng):
    lat = np.degrees(np.arcsin(rng.uniform(-0.97, 0.97)))
    return EarthLocation.from_geodetic(rng.uniform(-180, 180), lat, rng.uniform(0, 5000))


def _moon(rng):
    from lunarsky import MoonLocation

    return MoonLocation.from_selenodetic(rng.uniform(-180, 180), np.degrees(np.arcsin(rng.uniform(-0.95, 0.95))), rng.uniform(0, 1000))


def _times(rng, n=None):
    n = n or int(rng.integers(1, 9))
    base = rng.uniform(2453000, 2459500)
    span = gen.pick(rng, [0.01, 0.5, 20.0, 1000.0])
    t = base + np.sort(rng.uniform(0, span, n))
    idx = rng.integers(0, n, int(rng.integers(1, 3 * n + 1))) if rng.random() < 0.7 else np.arange(n)
    return t[idx]


def lst(ctx):
    rng = ctx.rng
    t = _times(rng)
    moon = rng.random() < 0.15
    if moon:
        loc = _moon(rng)
        from lunarsky import Time as LTime

        lib = gen.pick(rng, [None, "astropy"])
        got = uvu.get_lst_for_time(t, telescope_loc=loc, astrometry_library=lib)
        want = np.array([LTime(x, format="jd", scale="utc", location=loc).sidereal_time("apparent").rad for x in t])
        ctx.ev("lst_moon")
        tol = 1e-9
    else:
        loc = _site(rng)
        lib = gen.pick(rng, [None, "erfa", "astropy"])
        style = gen.pick(rng, ["loc", "tuple", "args"])
        if style == "loc":
            kw = {"telescope_loc": loc}
        elif style == "tuple":
            kw = {"telescope_loc": (loc.lat.deg, loc.lon.deg, loc.height.to_value("m"))}
            ctx.ev("lst_tuple")
        else:
            kw = {"latitude": loc.lat.deg, "longitude": loc.lon.deg, "altitude": loc.height.to_value("m")}
        got = uvu.get_lst_for_time(t, astrometry_library=lib, **kw)
        want = np.array([Time(x, format="jd", scale="utc", location=loc).sidereal_time("apparent").rad for x in t])
        ctx.ev("lst_" + (lib or "erfa"))
        tol = 1e-8 if lib == "novas" else 1e-9
    ctx.case("lst", moon, lib, len(t), np.round(t[0], 3))
    ctx.check(got.shape == t.shape, f"LSTs have shape {got.shape} for {t.shape} times")
    ctx.check(np.all((got >= 0) & (got < TAU)), "LST outside [0, 2 pi)")
    d = _adiff(got, want).max()
    ctx.check(d < tol, f"LST differs from the reference by {d} rad (library {lib}, moon {moon})")


def _source(rng, ctx):
    lon = rng.uniform(0, TAU)
    lat = np.arcsin(rng.uniform(-1, 1))
    if rng.random() < 0.2:
        lat = gen.pick(rng, [-1, 1]) * (np.pi / 2 - 10 ** rng.uniform(-5, -2))
        ctx.ev("near_pole")
    return float(lon), float(lat)


def _frame(rng, ctx):
    f = gen.pick(rng, ["icrs", "fk5", "fk5", "fk4", "galactic"])
    ctx.ev("frames_" + f)
    ep = None
    if f == "fk5":
        ep = gen.pick(rng, [2000.0, 1975.0, 2015.5, "J2010"])
        fr = FK5(equinox=Time(ep, format="jyear") if not isinstance(ep, str) else Time(ep))
    elif f == "fk4":
        ep = gen.pick(rng, [1950.0, 1960.0, "B1950"])
        fr = FK4(equinox=Time(ep, format="byear") if not isinstance(ep, str) else Time(ep))
    else:
        fr = {"icrs": ICRS(), "galactic": Galactic()}[f]
    return f, ep, fr


def _to_app(loc, t, sc):
    """Apparent RA/Dec of a SkyCoord through the horizon frame, one time."""
    tt = Time(t, format="jd", scale="utc", location=loc)
    aa = sc.transform_to(AltAz(obstime=tt, location=loc))
    lat = loc.lat.rad
    az, alt = aa.az.rad, aa.alt.rad
    x = -np.cos(az) * np.cos(alt) * np.sin(lat) + np.sin(alt) * np.cos(lat)
    y = -np.sin(az) * np.cos(alt)
    z = np.cos(az) * np.cos(alt) * np.cos(lat) + np.sin(alt) * np.sin(lat)
    return (tt.sidereal_time("apparent").rad - np.arctan2(y, x)) % TAU, np.arctan2(z, np.hypot(x, y))


def app(ctx):
    rng = ctx.rng
    loc = _site(rng)
    t = _times(rng)
    kind = gen.pick(rng, ["sidereal", "sidereal", "sidereal", "driftscan", "ephem", "unprojected"])
    f, ep, fr = _frame(rng, ctx)
    lon, lat = _source(rng, ctx)
    array = kind in ("sidereal", "driftscan") and rng.random() < 0.35
    kw = {}
    times_ephem = None
    pm = None
    if kind == "driftscan":
        lat = abs(lat)
    if array:
        ctx.ev("app_array")
        lon = rng.uniform(0, TAU, len(t))
        lat = np.arcsin(rng.uniform(0 if kind == "driftscan" else -1, 1, len(t)))
    elif kind == "sidereal" and f == "icrs" and rng.random() < 0.3:
        pm = (rng.uniform(-2000, 2000), rng.uniform(-2000, 2000))
        lat = float(np.clip(lat, -1.2, 1.2))
        kw.update(pm_ra=pm[0], pm_dec=pm[1])
        ctx.ev("app_pm")
    if kind == "ephem":
        n = gen.pick(rng, [1, 2, 3, 5])
        span = max(float(t.max() - t.min()), 0.1)
        times_ephem = np.linspace(t.min() - 0.1 * span, t.max() + 0.1 * span, n)
        rate = rng.uniform(-0.2, 0.2) / span
        lat = float(np.clip(lat, -1.3, 1.3))
        elon = lon + rate * (times_ephem - times_ephem[0])
        if rng.random() < 0.5:
            lon = rng.uniform(-0.05, 0.05)
            elon = (lon + rate * (times_ephem - times_ephem[0])) % TAU
        else:
            elon = elon % TAU
        elat = lat + 0.3 * rate * (times_ephem - times_ephem[0])
        kw["coord_times"] = times_ephem
        if n > 1 and np.abs(np.diff(elon)).max() > 3:
            ctx.ev("ephem_wrap")
    if rng.random() < 0.3 and kind in ("driftscan", "unprojected"):
        kw["lst_array"] = uvu.get_lst_for_time(t, telescope_loc=loc)
    tl = loc if rng.random() < 0.5 else (loc.lat.rad, loc.lon.rad, loc.height.to_value("m"))
    ctx.case("app", kind, f, ep, array, len(t), np.round(t[0], 2))
    ctx.ev("app_" + kind)
    ra, dec = ph.calc_app_coords(
        lon_coord=elon if kind == "ephem" else lon, lat_coord=elat if kind == "ephem" else lat, coord_frame=f, coord_epoch=ep,
        coord_type=kind, time_array=t.copy(), telescope_loc=tl, **kw)
    ctx.check(np.shape(ra) == t.shape and np.shape(dec) == t.shape, f"shapes {np.shape(ra)} {np.shape(dec)} for {t.shape} times")
    for i, ti in enumerate(t):
        li = lon[i] if array else lon
        bi = lat[i] if array else lat
        if kind in ("driftscan", "unprojected"):
            az, alt = (li, bi) if kind == "driftscan" else (0.0, np.pi / 2)
            sc = SkyCoord(AltAz(az=az * un.rad, alt=alt * un.rad, obstime=Time(ti, format="jd", scale="utc"), location=loc))
        else:
            if kind == "ephem":
                li = lon + rate * (ti - times_ephem[0]) if n > 1 else lon
                bi = lat + 0.3 * rate * (ti - times_ephem[0]) if n > 1 else lat
                li, bi = (elon[0], elat[0]) if n == 1 else (li, bi)
            if pm is not None:
                dt = (Time(ti, format="jd").tdb.jyear - 2000.0)
                v = pm[0] * np.cos(bi), pm[1]
                sc = SkyCoord(li * un.rad, bi * un.rad, pm_ra_cosdec=v[0] * un.mas / un.yr, pm_dec=v[1] * un.mas / un.yr,
                              obstime=Time("J2000"), frame="icrs", distance=1e5 * un.pc).apply_space_motion(dt=dt * un.yr)
                sc = SkyCoord(sc.ra, sc.dec, frame="icrs")
            else:
                sc = SkyCoord(li * un.rad, bi * un.rad, frame=fr)
        wra, wdec = _to_app(loc, ti, sc)
        d = _sep(ra[i], dec[i], wra, wdec)
        tol = 5e-9 if kind in ("driftscan", "unprojected") else 1e-7
        ctx.ev("positions")
        ctx.check(d < tol, lambda: f"apparent position of record {i} ({kind}, {f} {ep}, array={array}) differs by {d} rad from the horizon-frame reference")
        if i >= 6:
            break
    # order and repetition
    perm = rng.permutation(len(t))
    kw2 = dict(kw)
    if "lst_array" in kw2:
        kw2["lst_array"] = kw2["lst_array"][perm]
    ra2, dec2 = ph.calc_app_coords(
        lon_coord=elon if kind == "ephem" else (lon[perm] if array else lon), lat_coord=elat if kind == "ephem" else (lat[perm] if array else lat),
        coord_frame=f, coord_epoch=ep, coord_type=kind, time_array=t[perm], telescope_loc=tl, **kw2)
    ctx.check(np.array_equal(ra2, ra[perm]) and np.array_equal(dec2, dec[perm]), "apparent positions depend on the order of the times")


def app_moon(ctx):
    rng = ctx.rng
    from lunarsky import LunarTopo, SkyCoord as LSky, Time as LTime

    loc = _moon(rng)
    t = _times(rng, 3)
    lon, lat = _source(rng, ctx)
    ctx.case("app_moon", len(t), lon, lat)
    ra, dec = ph.calc_app_coords(lon_coord=lon, lat_coord=lat, time_array=t, telescope_loc=loc)
    ctx.ev("app_moon")
    for i in range(min(3, len(t))):
        tt = LTime(t[i], format="jd", scale="utc", location=loc)
        aa = LSky(lon * un.rad, lat * un.rad, frame="icrs").transform_to(LunarTopo(location=loc, obstime=tt))
        az, alt, la = aa.az.rad, aa.alt.rad, loc.lat.rad
        x = -np.cos(az) * np.cos(alt) * np.sin(la) + np.sin(alt) * np.cos(la)
        y = -np.sin(az) * np.cos(alt)
        z = np.cos(az) * np.cos(alt) * np.cos(la) + np.sin(alt) * np.sin(la)
        d = _sep(ra[i], dec[i], tt.sidereal_time("apparent").rad - np.arctan2(y, x), np.arctan2(z, np.hypot(x, y)))
        ctx.check(d < 1e-7, f"lunar apparent position differs by {d} rad")
    r2, d2 = ph.calc_sidereal_coords(time_array=t, app_ra=ra, app_dec=dec, telescope_loc=loc, coord_frame="icrs")
    ctx.check(_sep(r2, d2, lon, lat).max() < 1e-8, f"lunar apparent position does not transform back: {_sep(r2, d2, lon, lat).max()}")


def roundtrip(ctx):
    rng = ctx.rng
    loc = _site(rng)
    t = _times(rng)
    f, ep, fr = _frame(rng, ctx)
    lon, lat = _source(rng, ctx)
    lib = gen.pick(rng, ["erfa", "astropy"])
    ctx.case("roundtrip", f, ep, lib, len(t), lon, lat)
    ra, dec = ph.calc_app_coords(lon_coord=lon, lat_coord=lat, coord_frame=f, coord_epoch=ep, time_array=t, telescope_loc=loc)
    r2, d2 = ph.calc_sidereal_coords(time_array=t, app_ra=ra, app_dec=dec, telescope_loc=loc, coord_frame=f, coord_epoch=ep)
    d = _sep(r2, d2, lon, lat).max()
    ctx.check(d < 1e-8, f"{f} {ep} position does not survive the trip through apparent coordinates: {d} rad")
    ir, idd = ph.transform_app_to_icrs(time_array=t, app_ra=ra, app_dec=dec, telescope_loc=loc, astrometry_library=lib)
    a2, b2 = ph.transform_icrs_to_app(time_array=t, ra=ir, dec=idd, telescope_loc=loc, astrometry_library=lib)
    d = _sep(a2, b2, ra, dec).max()
    ctx.check(d < 1e-8, f"apparent position does not survive the trip through ICRS with {lib}: {d} rad")
    ctx.ev("roundtrip_icrs")
    # frame to frame
    g, eg, fg = _frame(rng, ctx)
    n = gen.pick(rng, [1, 4])
    lo, la = rng.uniform(0, TAU, n), np.arcsin(rng.uniform(-1, 1, n))
    o, p = ph.transform_sidereal_coords(longitude=lo, latitude=la, in_coord_frame=f, out_coord_frame=g, in_coord_epoch=ep, out_coord_epoch=eg)
    w = SkyCoord(lo * un.rad, la * un.rad, frame=fr).transform_to(fg).spherical
    d = _sep(o, p, w.lon.rad, w.lat.rad).max()
    ctx.check(d < 1e-9, f"{f} {ep} -> {g} {eg} differs from astropy by {d} rad")
    q, r = ph.transform_sidereal_coords(longitude=o, latitude=p, in_coord_frame=g, out_coord_frame=f, in_coord_epoch=eg, out_coord_epoch=ep)
    ctx.check(_sep(q, r, lo, la).max() < 1e-8, f"{f} -> {g} -> {f} is not the identity: {_sep(q, r, lo, la).max()}")


def frame_pa(ctx):
    rng = ctx.rng
    loc = _site(rng)
    t = _times(rng)
    f, ep, fr = _frame(rng, ctx)
    n = len(t)
    nsrc = int(rng.integers(1, 4))
    ras, decs = rng.uniform(0, TAU, nsrc), np.arcsin(rng.uniform(-0.97, 0.97, nsrc))
    if rng.random() < 0.3:
        decs[0] = gen.pick(rng, [-1, 1]) * (np.pi / 2 - rng.uniform(0.002, 0.0085))
        ctx.ev("pa_pole")
    ra, dec = ras[rng.integers(0, nsrc, n)], decs[rng.integers(0, nsrc, n)]
    ctx.case("frame_pa", f, ep, n, nsrc, np.round(decs, 3))
    before = ra.copy(), dec.copy()
    got = ph.calc_frame_pos_angle(time_array=t, app_ra=ra, app_dec=dec, telescope_loc=loc, ref_frame=f, ref_epoch=ep)
    ctx.check(np.array_equal(ra, before[0]) and np.array_equal(dec, before[1]), "input positions were modified")
    h = np.pi / 360
    ctx.ev("frame_pa")
    for i in range(min(n, 12)):
        w = np.array([np.cos(dec[i]) * np.cos(ra[i]), np.cos(dec[i]) * np.sin(ra[i]), np.sin(dec[i])])
        nn = np.array([-np.sin(dec[i]) * np.cos(ra[i]), -np.sin(dec[i]) * np.sin(ra[i]), np.cos(dec[i])])
        pts = [np.cos(h) * w - np.sin(h) * nn, np.cos(h) * w + np.sin(h) * nn]
        rr = np.array([np.arctan2(p[1], p[0]) % TAU for p in pts])
        dd = np.array([np.arctan2(p[2], np.hypot(p[0], p[1])) for p in pts])
        x, y = ph.transform_app_to_icrs(time_array=np.array([t[i], t[i]]), app_ra=rr, app_dec=dd, telescope_loc=loc)
        fri = FK4(equinox=fr.equinox, obstime=Time(t[i], format="jd", scale="utc")) if f == "fk4" else fr
        s = SkyCoord(x * un.rad, y * un.rad, frame="icrs").transform_to(fri).spherical
        s = SkyCoord(s.lon, s.lat, frame="icrs")
        want = -s[0].position_angle(s[1]).rad
        ctx.check(_adiff(got[i], want) < 1e-6, lambda: f"frame position angle of record {i} of {n} is {got[i]}, expected {want} ({f} {ep}, dec {dec[i]})")
    perm = rng.permutation(n)
    g2 = ph.calc_frame_pos_angle(time_array=t[perm], app_ra=ra[perm], app_dec=dec[perm], telescope_loc=loc, ref_frame=f, ref_epoch=ep)
    ctx.check(np.allclose(g2, got[perm], atol=1e-12), "frame position angles depend on the order of the records")
    q = ph.calc_parallactic_angle(app_ra=ra, app_dec=dec, lst_array=(lst_ := rng.uniform(0, TAU, n)), telescope_lat=loc.lat.rad)
    H = lst_ - ra
    want = np.arctan2(np.sin(H), np.tan(loc.lat.rad) * np.cos(dec) - np.sin(dec) * np.cos(H))
    ctx.check(_adiff(q, want).max() < 1e-9, "parallactic angles differ from the spherical-triangle formula")
    ctx.ev("parallactic")


def _basis(lst_, ra, dec, pa, lon):
    """uvw basis vectors in ECEF: rows u, v, w."""
    gha = lst_ - ra - lon  # greenwich hour angle
    c, s = np.cos, np.sin
    w = np.stack([c(dec) * c(-gha), c(dec) * s(-gha), s(dec)], -1)
    u = np.stack([-s(-gha), c(-gha), np.zeros_like(gha)], -1)
    v = np.cross(w, u)
    # the map north is turned by the position angle
    u2 = c(pa)[:, None] * u - s(pa)[:, None] * v
    v2 = s(pa)[:, None] * u + c(pa)[:, None] * v
    return np.stack([u2, v2, w], 1)


def uvw(ctx):
    rng = ctx.rng
    nant = int(rng.integers(2, 7))
    nums = rng.permutation(60)[:nant]
    pos = rng.normal(size=(nant, 3)) * 100
    lat, lon = float(np.arcsin(rng.uniform(-0.97, 0.97))), float(rng.uniform(-np.pi, np.pi))
    n = int(rng.integers(1, 14))
    pool = lambda: rng.choice(rng.uniform(0, TAU, 3), n)
    lst_, ra = pool(), pool()
    dec = rng.choice(np.arcsin(rng.uniform(-1, 1, 3)), n)
    pa = rng.choice(np.array([0.0, 0.1, -0.2]), n) if rng.random() < 0.8 else rng.uniform(-3, 3, n)
    i1, i2 = rng.integers(0, nant, n), rng.integers(0, nant, n)
    bl = pos[i2] - pos[i1]
    B = _basis(lst_, ra, dec, pa, lon)
    want = np.einsum("nij,nj->ni", B, bl)
    E = _basis(np.zeros(n), np.zeros(n), np.full(n, lat), np.zeros(n), -lon * 0 + lon)
    # ENU: zenith at the telescope
    e = np.array([-np.sin(lon), np.cos(lon), 0.0])
    nn = np.array([-np.sin(lat) * np.cos(lon), -np.sin(lat) * np.sin(lon), np.cos(lat)])
    uu = np.array([np.cos(lat) * np.cos(lon), np.cos(lat) * np.sin(lon), np.sin(lat)])
    enu = bl @ np.array([e, nn, uu]).T
    mode = gen.pick(rng, ["antpos", "antpos", "antpos_enu", "from_enu", "to_enu", "rephase", "pa_only"])
    ctx.case("uvw", mode, n, nant)
    com = dict(telescope_lat=lat, telescope_lon=lon)
    tol = 1e-9
    if mode == "antpos":
        ctx.ev("uvw_antpos")
        got = ph.calc_uvw(app_ra=ra, app_dec=dec, frame_pa=pa, lst_array=lst_, use_ant_pos=True, antenna_positions=pos, antenna_numbers=nums,
                          ant_1_array=nums[i1], ant_2_array=nums[i2], **com)
    elif mode == "antpos_enu":
        ctx.ev("uvw_to_enu")
        got = ph.calc_uvw(use_ant_pos=True, to_enu=True, antenna_positions=pos, antenna_numbers=nums, ant_1_array=nums[i1], ant_2_array=nums[i2], **com)
        want = enu
    elif mode == "from_enu":
        ctx.ev("uvw_from_enu")
        got = ph.calc_uvw(app_ra=ra, app_dec=dec, frame_pa=pa, lst_array=lst_, use_ant_pos=False, uvw_array=enu, from_enu=True, **com)
    elif mode == "to_enu":
        ctx.ev("uvw_to_enu")
        got = ph.calc_uvw(lst_array=lst_, use_ant_pos=False, uvw_array=want, old_app_ra=ra, old_app_dec=dec, old_frame_pa=pa, to_enu=True, **com)
        want = enu
    else:
        ctx.ev("uvw_rephase")
        if mode == "pa_only":
            ra2, dec2 = ra, dec
        else:
            ra2, dec2 = rng.uniform(0, TAU, n), np.arcsin(rng.uniform(-1, 1, n))
        pa2 = rng.uniform(-3, 3, n)
        got = ph.calc_uvw(app_ra=ra2, app_dec=dec2, frame_pa=pa2, lst_array=lst_, use_ant_pos=False, uvw_array=want.copy(), old_app_ra=ra, old_app_dec=dec,
                          old_frame_pa=pa, **com)
        want = np.einsum("nij,nj->ni", _basis(lst_, ra2, dec2, pa2, lon), bl)
    ctx.ev("uvws", n)
    d = np.abs(got - want).max()
    ctx.check(got.shape == (n, 3) and d < tol * 100, lambda: f"{mode}: uvws differ from the direct rotation by {d} m (n={n})")


def track(ctx):
    rng = ctx.rng
    loc = _site(rng)
    nt = int(rng.integers(1, 5))
    t = rng.uniform(2458000, 2458001, nt)
    f, ep, fr = _frame(rng, ctx)
    nsrc = gen.pick(rng, [1, nt])
    lon, lat = rng.uniform(0, TAU, nsrc), np.arcsin(rng.uniform(-0.95, 0.95, nsrc))
    pos = rng.normal(size=(int(rng.integers(2, 5)), 3)) * 100
    tl = loc if rng.random() < 0.5 else (loc.lat.deg, loc.lon.deg, loc.height.to_value("m"))
    pu = rng.random() < 0.3
    ctx.case("track", nt, nsrc, f, ep, pu)
    ctx.ev("track")
    r = ph.uvw_track_generator(lon_coord=lon, lat_coord=lat, coord_frame=f, coord_epoch=ep, time_array=t.copy(), telescope_loc=tl, antenna_positions=pos,
                               force_postive_u=pu)
    nb = len(pos) * (len(pos) - 1) // 2
    ctx.check(r["uvw"].shape == (nb * nt, 3), f"track has shape {r['uvw'].shape}, expected {(nb * nt, 3)}")
    k = 0
    for i in range(nt):
        sc = SkyCoord(lon[i % nsrc] * un.rad, lat[i % nsrc] * un.rad, frame=fr)
        wra, wdec = _to_app(loc, t[i], sc)
        l = Time(t[i], format="jd", scale="utc", location=loc).sidereal_time("apparent").rad
        for a in range(len(pos)):
            for b in range(a + 1, len(pos)):
                ctx.check(_sep(r["app_ra"][k], r["app_dec"][k], wra, wdec) < 1e-6, lambda: f"track position of time {i} is off by {_sep(r['app_ra'][k], r['app_dec'][k], wra, wdec)}")
                ctx.check(_adiff(r["lst"][k], l) < 1e-8, "track LST is off")
                B = _basis(np.array([l]), np.array([wra]), np.array([wdec]), np.array([r["frame_pa"][k]]), loc.lon.rad)[0]
                w = B @ (pos[b] - pos[a])
                g = r["uvw"][k]
                if pu:
                    ctx.check(g[0] > -1e-9, "negative u although positive u was asked for")
                    w = w if w[0] >= 0 else -w
                ctx.check(np.abs(g - w).max() < 2e-4, lambda: f"track uvw of time {i} baseline {a}-{b}: {g} expected {w}")
                k += 1


def ephem(ctx):
    rng = ctx.rng
    n = gen.pick(rng, [1, 2, 3, 4, 7])
    et = 2458000 + np.sort(rng.uniform(0, 1, n))
    if n > 1 and np.diff(et).min() < 1e-3:
        et = 2458000 + np.linspace(0, 1, n)
    wrap = rng.random() < 0.4
    true_ra = (rng.uniform(-0.02, 0.0) if wrap else rng.uniform(0.5, 5)) + 0.05 * (et - et[0]) + 0.01 * np.sin(3 * (et - et[0]))
    era = true_ra % TAU
    edec = rng.uniform(-1, 1) + 0.04 * np.cos(2 * (et - et[0]))
    dist = rng.uniform(1, 2, n) if rng.random() < 0.5 else None
    vel = rng.uniform(-2, 2, n) if rng.random() < 0.5 else None
    t = rng.uniform(et.min(), et.max(), 6) if n > 1 else rng.uniform(2458000, 2458001, 6)
    t[rng.random(6) < 0.3] = et[0]
    if rng.random() < 0.3:
        t[2] = et[-1]
    perm = rng.permutation(n) if rng.random() < 0.3 else np.arange(n)
    crosses = n > 1 and np.abs(np.diff(era)).max() > 3
    ctx.case("ephem", n, wrap, crosses, dist is not None, vel is not None, not np.array_equal(perm, np.arange(n)))
    if crosses:
        ctx.ev("ephem_wrap")
    got = ph.interpolate_ephem(time_array=t, ephem_times=et[perm], ephem_ra=era[perm], ephem_dec=edec[perm],
                               ephem_dist=None if dist is None else dist[perm], ephem_vel=None if vel is None else vel[perm])

    def ref(y):
        if n == 1:
            return np.full(len(t), y[0])
        if n < 4:
            return np.interp(t, et, y)
        return CubicSpline(et, y, bc_type="not-a-knot")(t)

    ctx.check(_adiff(got[0], ref(true_ra)).max() < 1e-8, lambda: f"interpolated RA {got[0]} expected {ref(true_ra) % TAU} (table {era})")
    ctx.check(np.abs(got[1] - ref(edec)).max() < 1e-8, "interpolated Dec is wrong")
    for g, y, nm in ((got[2], dist, "distance"), (got[3], vel, "velocity")):
        ctx.check((g is None) == (y is None) and (y is None or np.abs(g - ref(y)).max() < 1e-8), f"interpolated {nm} is wrong")
    ctx.ev("ephem_exact", int(np.isin(t, et).sum()))


def rotations(ctx):
    rng = ctx.rng
    n, nv = int(rng.integers(1, 5)), int(rng.integers(1, 4))
    ax1, ax2 = int(rng.integers(0, 3)), int(rng.integers(0, 3))
    mk = lambda: gen.pick(rng, [0.0, float(rng.uniform(-7, 7)), rng.uniform(-7, 7, n), None])
    a1, a2 = mk(), mk()
    x = rng.normal(size=(n, 3, nv))
    ctx.case("rot", n, nv, ax1, ax2, np.ndim(a1), np.ndim(a2))
    ctx.ev("rotations")

    def M(a, ax, i):
        a = 0.0 if a is None else (a[i] if isinstance(a, np.ndarray) else a)
        c, s = np.cos(a), np.sin(a)
        m = np.eye(3)
        j, k = (ax + 1) % 3, (ax + 2) % 3
        m[j, j] = m[k, k] = c
        m[k, j], m[j, k] = s, -s
        return m

    def shaped(a):
        return isinstance(a, np.ndarray) or n == 1 or nv == 1

    if isinstance(a1, np.ndarray) or n == 1 or a1 is None or a1 == 0.0:
        got = ph._rotate_one_axis(x, rot_amount=a1, rot_axis=ax1)
        want = np.stack([M(a1, ax1, i) @ x[i] for i in range(n)])
        ctx.check(np.allclose(got, want, atol=1e-12), f"rotation about axis {ax1} is wrong")
    if n == 1 or isinstance(a1, np.ndarray) or isinstance(a2, np.ndarray):
        got = ph._rotate_two_axis(x, rot_amount1=a1, rot_amount2=a2, rot_axis1=ax1, rot_axis2=ax2) if not (ax1 == ax2 and (a1 is None) != (a2 is None) and False) else None
        want = np.stack([M(a2, ax2, i) @ M(a1, ax1, i) @ x[i] for i in range(n)])
        ctx.check(np.allclose(got, want, atol=1e-12), f"rotation about axes {ax1} then {ax2} is wrong ({a1}, {a2})")
    lo, la = rng.uniform(0, TAU, n), np.arcsin(rng.uniform(-1, 1, n))
    v = ph.polar2_to_cart3(lon_array=lo, lat_array=la)
    ctx.check(np.allclose(v, [np.cos(lo) * np.cos(la), np.sin(lo) * np.cos(la), np.sin(la)]), "polar2_to_cart3 is wrong")
    l2, b2 = ph.cart3_to_polar2(v * rng.uniform(0.1, 10))
    ctx.check(_adiff(l2, lo).max() < 1e-9 and np.abs(b2 - la).max() < 1e-7, "cart3_to_polar2 is not the inverse")
    # the pre-2.2 uvw conventions are inverse to each other
    u = rng.normal(size=(n + 1, 3))
    ctx.check(np.allclose(ph.undo_old_uvw_calc(lo[0], la[0], ph.old_uvw_calc(lo[0], la[0], u)), u, atol=1e-12), "old uvw rotation and its inverse disagree")


SCENARIOS = [
    Scenario("lst", lst, 150, 3000),
    Scenario("app", app, 170, 3000),
    Scenario("app_moon", app_moon, 6, 60),
    Scenario("roundtrip", roundtrip, 120, 2000),
    Scenario("frame_pa", frame_pa, 100, 2000),
    Scenario("uvw", uvw, 600, 12000),
    Scenario("track", track, 50, 1000),
    Scenario("ephem", ephem, 200, 4000),
    Scenario("rotations", rotations, 300, 6000),
]
