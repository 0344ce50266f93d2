"""C22 Coordinate transformations."""
import astropy.units as u
import numpy as np
from astropy.coordinates import EarthLocation
from lunarsky import MoonLocation

from pyuvdata import utils
from vmon import gen
from vmon.core import Scenario

RULE = (
    "locations all over Earth and the Moon (poles, equator, date line, below and above the surface, every lunar ellipsoid) and clouds of 1 to hundreds of positions "
    "around them, in every accepted array layout, converted forth, back, together, one at a time and by closed-form double-precision references and astropy/lunarsky; "
    "non-trivial = distinct location and cloud"
)
REQUIRED = ["earth", "moon", "pole", "on_axis", "date_line", "single", "many", "strided", "lla_xyz", "enu", "rot", "loc_object", "refused", "isometry", "surface_check", "ell_GSFC", "ell_GRAIL23", "ell_CE-1-LAM-GEO", "ell_SPHERE"]

ELL = {"SPHERE": (1737.1e3, 0.0), "GSFC": (1738.1e3, 0.0012), "GRAIL23": (1737576.6, 0.000305), "CE-1-LAM-GEO": (1737.632e3, 1 / 973.463)}
EARTH = (6378137.0, 1 / 298.257223563)


def _xyz(lat, lon, alt, ell):
    a, f = ell
    e2 = f * (2 - f)
    n = a / np.sqrt(1 - e2 * np.sin(lat) ** 2)
    return np.stack([(n + alt) * np.cos(lat) * np.cos(lon), (n + alt) * np.cos(lat) * np.sin(lon), ((1 - e2) * n + alt) * np.sin(lat)], axis=-1)


def _basis(lat, lon):
    e = np.array([-np.sin(lon), np.cos(lon), 0.0])
    up = np.array([np.cos(lat) * np.cos(lon), np.cos(lat) * np.sin(lon), np.sin(lat)])
    return np.stack([e, np.cross(up, e), up])


def _site(ctx, rng):
    moon = rng.integers(3) == 0
    k = int(rng.integers(6))
    lat = float(np.arcsin(rng.uniform(-1, 1)))
    lon = float(rng.uniform(-np.pi, np.pi))
    if k == 0:
        lat = gen.pick(rng, [-1, 1]) * (np.pi / 2 - gen.pick(rng, [0.0, 1e-9, 1e-7, 1e-5, 1e-3]))
        ctx.ev("pole")
    elif k == 1:
        lon = gen.pick(rng, [-np.pi, np.pi, np.pi - 1e-9, -np.pi + 1e-9, 0.0, np.pi / 2])
        ctx.ev("date_line")
    elif k == 2:
        lat = 0.0
    alt = float(rng.uniform(-400, 6000))
    if moon:
        name = gen.pick(rng, list(ELL))
        ctx.ev("ell_" + name)
        ctx.ev("moon")
        return lat, lon, alt, "MCMF", name, ELL[name]
    ctx.ev("earth")
    return lat, lon, alt, "ITRS", None, EARTH


def _cloud(ctx, rng, shape_n):
    n = shape_n
    return rng.normal(size=(n, 3)) * gen.pick(rng, [1.0, 100.0, 5000.0]) * np.array([1, 1, 0.05])


def _lay(ctx, rng, a):
    k = int(rng.integers(4))
    if k == 0:
        return np.asfortranarray(a)
    if k == 1:
        ctx.ev("strided")
        return np.repeat(a, 2, axis=0)[::2]
    if k == 2:
        return a.tolist()
    return a


def s_lla(ctx):
    rng = ctx.rng
    lat, lon, alt, frame, ename, ell = _site(ctx, rng)
    n = int(gen.pick(rng, [1, 1, 2, 3, 30, 300]))
    ctx.ev("single" if n == 1 else "many")
    kw = {"frame": gen.pick(rng, [frame, frame.lower()])}
    if ename and (ename != "SPHERE" or rng.integers(2)):
        kw["ellipsoid"] = ename
    lats = np.clip(lat + rng.normal(size=n) * 1e-3 * (n > 1), -np.pi / 2, np.pi / 2)
    lons = lon + rng.normal(size=n) * 1e-3 * (n > 1)
    alts = alt + rng.normal(size=n) * 10 * (n > 1)
    ctx.case("lla", n, kw, lat, lon, alt)
    if n == 1:
        got = utils.XYZ_from_LatLonAlt(lat, lon, alt, **kw)
        ctx.check(got.shape == (3,), f"one point gives shape {got.shape}")
        got = got[None]
        lats, lons, alts = np.array([lat]), np.array([lon]), np.array([alt])
    else:
        got = utils.XYZ_from_LatLonAlt(_lay1(rng, lats), _lay1(rng, lons), _lay1(rng, alts), **kw)
    want = _xyz(lats, lons, alts, ell)
    d = np.abs(got - want).max()
    ctx.check(got.shape == want.shape and d < 1e-6, lambda: f"XYZ_from_LatLonAlt differs from the ellipsoid formula by {d} m for {kw}")
    if n == 1:
        ref = (EarthLocation.from_geodetic(lon * u.rad, lat * u.rad, alt * u.m) if frame == "ITRS" else
               MoonLocation.from_selenodetic(lon * u.rad, lat * u.rad, alt * u.m, ellipsoid=ename))
        r = np.array([ref.x.to_value("m"), ref.y.to_value("m"), ref.z.to_value("m")])
        ctx.check(np.abs(got[0] - r).max() < 1e-3, lambda: f"XYZ_from_LatLonAlt disagrees with astropy/lunarsky by {np.abs(got[0] - r).max()} m")
    else:
        one = np.array([utils.XYZ_from_LatLonAlt(lats[i], lons[i], alts[i], **kw) for i in range(min(n, 5))])
        ctx.check(np.abs(one - got[: len(one)]).max() < 1e-8, "points converted one at a time differ")
    ctx.ev("lla_xyz")
    inp = got[0] if n == 1 and rng.integers(2) else _lay(ctx, rng, got)
    c = np.array(got, copy=True)
    la, lo, al = utils.LatLonAlt_from_XYZ(inp, **kw)
    ctx.check(np.array_equal(got, c), "LatLonAlt_from_XYZ modified its input")
    la, lo, al = np.atleast_1d(la), np.atleast_1d(lo), np.atleast_1d(al)
    ctx.check(np.abs(la - lats).max() < 2e-9, lambda: f"latitude does not round trip: {np.abs(la - lats).max()} rad at {lats[:2]}, {kw}")
    dl = (lo - lons + np.pi) % (2 * np.pi) - np.pi
    w = np.abs(dl) * np.cos(lats)
    ctx.check(w.max() < 2e-9, lambda: f"longitude does not round trip: {w.max()}")
    ctx.check(np.abs(al - alts).max() < 1e-3, lambda: f"altitude does not round trip: off by {np.abs(al - alts).max()} m at latitude {lats[np.argmax(np.abs(al - alts))]!r}, {kw}")
    back = utils.XYZ_from_LatLonAlt(la, lo, al, **kw)
    ctx.check(np.abs(np.atleast_2d(back) - got).max() < 1e-2, "xyz -> lla -> xyz")


def s_xyz(ctx):
    """positions given as geocentric coordinates, including the axis itself"""
    rng = ctx.rng
    lat, lon, alt, frame, ename, ell = _site(ctx, rng)
    n = int(gen.pick(rng, [1, 2, 20]))
    base = _xyz(np.array(lat), np.array(lon), np.array(alt), ell)
    xyz = base + rng.normal(size=(n, 3)) * gen.pick(rng, [0.0, 1.0, 1000.0])
    k = int(rng.integers(4))
    if k == 0:
        xyz[int(rng.integers(n)), :2] = gen.pick(rng, [[0.0, 0.0], [1e-6, 0.0], [0.0, -1e-3], [-5.0, 2.0]])
        i = np.where(np.hypot(xyz[:, 0], xyz[:, 1]) < 10)[0]
        b = ell[0] * (1 - ell[1])
        xyz[i, 2] = np.where(rng.random(len(i)) < 0.5, -1, 1) * (b + float(rng.uniform(-100, 3000)))
        ctx.ev("on_axis")
    kw = {"frame": frame}
    if ename:
        kw["ellipsoid"] = ename
    ctx.case("xyz", kw, xyz[0])
    la, lo, al = utils.LatLonAlt_from_XYZ(xyz, **kw)
    back = np.atleast_2d(utils.XYZ_from_LatLonAlt(la, lo, al, **kw))
    d = np.abs(back - xyz).max()
    ctx.check(d < 2e-2, lambda: f"xyz -> lat/lon/alt -> xyz off by {d} m for {xyz[np.argmax(np.abs(back - xyz).max(axis=1))]} ({kw})")
    ctx.check(np.all(np.abs(la) <= np.pi / 2 + 1e-12) and np.all(np.abs(lo) <= np.pi + 1e-12), "latitude or longitude out of range")


def _lay1(rng, a):
    k = int(rng.integers(3))
    return [a, np.repeat(a, 2)[::2], a.tolist()][k]


def s_enu(ctx):
    rng = ctx.rng
    lat, lon, alt, frame, ename, ell = _site(ctx, rng)
    n = int(gen.pick(rng, [1, 1, 2, 3, 50, 500]))
    ctx.ev("single" if n == 1 else "many")
    enu = _cloud(ctx, rng, n)
    obj = rng.integers(2) == 0
    if obj:
        ctx.ev("loc_object")
        loc = (EarthLocation.from_geodetic(lon * u.rad, lat * u.rad, alt * u.m) if frame == "ITRS" else
               MoonLocation.from_selenodetic(lon * u.rad, lat * u.rad, alt * u.m, ellipsoid=ename))
        kw = {"center_loc": loc}
    else:
        kw = {"latitude": lat, "longitude": lon, "altitude": alt, "frame": gen.pick(rng, [frame, frame.lower()])}
        if ename and (ename != "SPHERE" or rng.integers(2)):
            kw["ellipsoid"] = ename
    ctx.case("enu", n, lat, lon, alt, frame, ename, obj, enu[0])
    ctx.ev("enu")
    c = _xyz(np.array(lat), np.array(lon), np.array(alt), ell)
    B = _basis(lat, lon)
    want = c + enu @ B
    e0 = enu.copy()
    one_d = n == 1 and rng.integers(2)
    got = utils.ECEF_from_ENU(enu[0] if one_d else _lay(ctx, rng, enu), **kw)
    ctx.check(np.array_equal(enu, e0), "ECEF_from_ENU modified its input")
    ctx.check(got.shape == ((3,) if one_d else (n, 3)), f"shape {got.shape} for {n} points")
    d = np.abs(np.atleast_2d(got) - want).max()
    tol = 1e-3 if obj else 2e-8 * 100
    # a location object goes through the site's geocentric coordinates, a tiny angle near the poles matters there
    if not (obj and abs(lat) > np.pi / 2 - 1e-4):
        ctx.check(d < tol, lambda: f"ECEF_from_ENU off by {d} m at lat {lat} lon {lon} {frame} {ename}")
    xyz = np.atleast_2d(got)
    inp = xyz[0] if n == 1 and rng.integers(2) else _lay(ctx, rng, xyz)
    back = utils.ENU_from_ECEF(inp, **kw)
    ctx.check(back.shape == (np.shape(inp)), f"ENU_from_ECEF gives shape {back.shape} for {np.shape(inp)}")
    ctx.check(np.abs(np.atleast_2d(back) - enu).max() < 2e-6, lambda: f"ENU -> ECEF -> ENU off by {np.abs(np.atleast_2d(back) - enu).max()} m")
    if n > 1:
        i, j = rng.integers(0, n, 2)
        ctx.check(abs(np.linalg.norm(xyz[i] - xyz[j]) - np.linalg.norm(enu[i] - enu[j])) < 1e-6, "distances not kept")
        ctx.ev("isometry")
        one = np.array([utils.ENU_from_ECEF(xyz[k], **kw) for k in range(min(n, 4))])
        ctx.check(np.abs(one - back[: len(one)]).max() < 1e-8, "points converted one at a time differ")


def s_rot(ctx):
    rng = ctx.rng
    n = int(gen.pick(rng, [1, 2, 7, 200]))
    xyz = rng.normal(size=(n, 3)) * gen.pick(rng, [100.0, 6.4e6])
    lon = float(gen.pick(rng, [rng.uniform(-7, 7), 0.0, np.pi, -np.pi / 2]))
    ctx.case("rot", n, lon, xyz[0])
    ctx.ev("rot")
    r = utils.rotECEF_from_ECEF(xyz, lon)
    # the x axis of the rotated frame points at the longitude
    p = np.array([[np.cos(lon), np.sin(lon), 0.3]])
    q = utils.rotECEF_from_ECEF(p, lon)
    ctx.check(np.abs(q - [1, 0, 0.3]).max() < 1e-12, f"the rotated x axis does not go through longitude {lon}: {q}")
    want = np.stack([np.cos(lon) * xyz[:, 0] + np.sin(lon) * xyz[:, 1], -np.sin(lon) * xyz[:, 0] + np.cos(lon) * xyz[:, 1], xyz[:, 2]], 1)
    s = np.abs(xyz).max()
    ctx.check(np.abs(r - want).max() < 1e-12 * s + 1e-12, "rotECEF_from_ECEF")
    b = utils.ECEF_from_rotECEF(r, lon)
    ctx.check(np.abs(b - xyz).max() < 1e-12 * s, "rotECEF does not round trip")
    ctx.check(np.abs(np.linalg.norm(r, axis=1) - np.linalg.norm(xyz, axis=1)).max() < 1e-12 * s, "rotECEF changes lengths")


def s_refuse(ctx):
    rng = ctx.rng
    k = int(rng.integers(7))
    ctx.case(k, float(rng.random()))
    ctx.ev("refused")
    xyz = _xyz(0.3, 0.2, 100.0, EARTH)
    if k == 0:
        ctx.raises(ValueError, lambda: utils.LatLonAlt_from_XYZ(xyz * gen.pick(rng, [0.5, 1.1, 1e-3])), "position far from the surface")
    elif k == 1:
        ctx.raises(ValueError, lambda: utils.LatLonAlt_from_XYZ(np.ones((3, 2))), "bad shape")
    elif k == 2:
        ctx.raises(ValueError, lambda: utils.XYZ_from_LatLonAlt([0.1, 0.2], [0.1], [1.0, 2.0]), "lengths differ")
    elif k == 3:
        ctx.raises(ValueError, lambda: utils.ENU_from_ECEF(xyz, latitude=0.1, longitude=None, altitude=3.0), "no center")
    elif k == 4:
        ctx.raises(ValueError, lambda: utils.ENU_from_ECEF(np.stack([xyz, xyz * 0.3]), latitude=0.3, longitude=0.2, altitude=3.0), "position inside the Earth")
    elif k == 5:
        ctx.raises(ValueError, lambda: utils.ECEF_from_ENU(np.ones((2, 4)), latitude=0.3, longitude=0.2, altitude=3.0), "bad shape")
    else:
        ctx.raises(ValueError, lambda: utils.ECEF_from_ENU(np.ones((2, 3)), latitude=0.3, longitude=0.2, altitude=3.0, frame="galactic"), "unknown frame")
    # surface check
    from pyuvdata.utils.coordinates import check_surface_based_positions as chk
    moon = rng.integers(3) == 0
    lat, lon = float(np.arcsin(rng.uniform(-1, 1))), float(rng.uniform(-3, 3))
    loc = (MoonLocation if moon else EarthLocation)(*(_xyz(lat, lon, 10.0, ELL["SPHERE"] if moon else EARTH) * u.m))
    pos = rng.normal(size=(int(rng.integers(1, 6)), 3)) * 50
    bad = rng.integers(2)
    if bad:
        pos[int(rng.integers(len(pos)))] += _basis(lat, lon)[2] * gen.pick(rng, [-1, 1]) * 1e5
    tl = loc if rng.integers(2) else (loc.x.to_value("m"), loc.y.to_value("m"), loc.z.to_value("m"))
    got = chk(telescope_loc=tl, telescope_frame="mcmf" if moon else "itrs", antenna_positions=pos, raise_error=False, raise_warning=False)
    ctx.check(bool(got) == (not bad), f"surface check says {got} with an antenna {'100 km off' if bad else 'on'} the surface")
    ctx.ev("surface_check")


SCENARIOS = [
    Scenario("lla", s_lla, 3000, 60000),
    Scenario("xyz", s_xyz, 2000, 40000),
    Scenario("enu", s_enu, 3000, 60000),
    Scenario("rot", s_rot, 1000, 10000),
    Scenario("refuse", s_refuse, 500, 5000),
]
