"""C10 Phasing changes phase only, consistently and reversibly."""
import numpy as np
from astropy import units as un
from astropy.coordinates import FK4, FK5, ICRS, Galactic, AltAz, SkyCoord
from astropy.time import Time

from pyuvdata import utils as uvu
from vmon import canon, gen
from vmon.core import Scenario
from vmon.props import common

RULE = (
    "a random object goes through a random sequence of phase / unproject_phase / phase_to_time / "
    "set_uvws_from_antenna_positions calls (sidereal in several frames and epochs, driftscan, ephem, unprojected, looked-up "
    "centers; whole or masked baseline-times; uvws from antenna positions or from the old uvws). After each call the uvws are "
    "compared with a model made from astropy AltAz directions and antenna positions only, the visibilities with the phase "
    "implied by the uvw change, everything else with the state before; finally the original centers are restored and compared. "
    "non-trivial = distinct (object, sequence)"
)
REQUIRED = ["op_sidereal", "op_driftscan", "op_ephem", "op_unproject", "op_to_time", "op_lookup", "op_set_uvws", "masked", "no_ant_pos",
            "masked_no_ant_pos", "restored", "point_source", "frame_fk5", "frame_fk4", "frame_galactic", "antpos_delta", "antpos_plain"]
ASSUMPTIONS = ["astropy's AltAz transformation is the reference for directions (1e-5 rad)"]

C = 299792458.0


def _bl_enu(uv, rows):
    """Baseline vectors (antenna 2 minus antenna 1) in local ENU, from antenna positions."""
    lat, lon = uv.telescope.location.lat.rad, uv.telescope.location.lon.rad
    e = np.array([-np.sin(lon), np.cos(lon), 0.0])
    n = np.array([-np.sin(lat) * np.cos(lon), -np.sin(lat) * np.sin(lon), np.cos(lat)])
    u = np.array([np.cos(lat) * np.cos(lon), np.cos(lat) * np.sin(lon), np.sin(lat)])
    pos = {int(a): p for a, p in zip(uv.telescope.antenna_numbers, uv.telescope.antenna_positions)}
    d = np.array([pos[int(b)] - pos[int(a)] for a, b in zip(uv.ant_1_array[rows], uv.ant_2_array[rows])])
    return d @ np.array([e, n, u]).T


def _altaz(sc, uv, t):
    with_loc = AltAz(obstime=Time(t, format="jd", scale="utc"), location=uv.telescope.location)
    aa = sc.transform_to(with_loc)
    return _vec(aa.az.rad, aa.alt.rad)


def _to_frame(uv, t, vec, c):
    sc = SkyCoord(az=np.arctan2(vec[:, 0], vec[:, 1]) * un.rad, alt=np.arcsin(np.clip(vec[:, 2], -1, 1)) * un.rad,
                  frame=AltAz(obstime=Time(t, format="jd", scale="utc"), location=uv.telescope.location))
    r = sc.transform_to(_frame(c)).spherical
    return SkyCoord(r.lon, r.lat, frame="icrs")  # plain angles of that frame


def _vec(az, alt):
    return np.stack([np.cos(alt) * np.sin(az), np.cos(alt) * np.cos(az), np.sin(alt)], -1)


def _frame(c):
    f = c["frame"]
    if f == "fk5":
        return FK5(equinox=Time(c.get("epoch") or "J2000"))
    if f == "fk4":
        return FK4(equinox=Time(c.get("epoch") or "B1950"))
    return {"icrs": ICRS(), "galactic": Galactic()}[f]


def _model_uvw(uv, rows, c):
    """uvws of a phase center description c, by directions in the local horizon frame."""
    bl = _bl_enu(uv, rows)
    if c["type"] == "unprojected":
        return bl
    t = uv.time_array[rows]
    if c["type"] == "driftscan":
        w = np.broadcast_to(_vec(c["lon"], c["lat"]), bl.shape)
        # apparent north: towards the celestial pole
        lat = uv.telescope.location.lat.rad
        pole = np.broadcast_to(np.array([0.0, np.cos(lat), np.sin(lat)]), bl.shape)
        v = pole - np.sum(pole * w, -1, keepdims=True) * w
    else:
        if c["type"] == "ephem":
            lon = c["lon"][0] + (t - c["times"][0]) / (c["times"][-1] - c["times"][0]) * (c["lon"][-1] - c["lon"][0])
            lat = c["lat"][0] + (t - c["times"][0]) / (c["times"][-1] - c["times"][0]) * (c["lat"][-1] - c["lat"][0])
        else:
            lon, lat = np.full(len(t), c["lon"]), np.full(len(t), c["lat"])
        ut, inv = np.unique(t, return_inverse=True)
        first = np.unique(inv, return_index=True)[1]
        s = SkyCoord(lon[first] * un.rad, lat[first] * un.rad, frame=_frame(c))
        w1 = _altaz(s, uv, ut)
        # v points north in the frame of the center: documented as the position angle over the arc
        # of half a degree of apparent declination on either side
        lat = uv.telescope.location.lat.rad
        pole = np.broadcast_to(np.array([0.0, np.cos(lat), np.sin(lat)]), w1.shape)
        north = pole - np.sum(pole * w1, -1, keepdims=True) * w1
        north = north / np.linalg.norm(north, axis=-1, keepdims=True)
        east = np.cross(north, w1)
        h = np.pi / 360
        up = _to_frame(uv, ut, np.cos(h) * w1 + np.sin(h) * north, c)
        dn = _to_frame(uv, ut, np.cos(h) * w1 - np.sin(h) * north, c)
        pa = dn.position_angle(up).rad
        w = w1[inv]
        v = (np.cos(pa)[:, None] * north - np.sin(pa)[:, None] * east)[inv]
    v = v / np.linalg.norm(v, axis=-1, keepdims=True)
    u = np.cross(v, w)
    return np.stack([np.sum(bl * u, -1), np.sum(bl * v, -1), np.sum(bl * w, -1)], -1)


def _center(ctx, uv, kind, k):
    rng = ctx.rng
    lst0 = float(Time(uv.time_array[0], format="jd", location=uv.telescope.location).sidereal_time("mean").rad)
    lat0 = float(uv.telescope.location.lat.rad)
    if kind == "sidereal":
        f = gen.pick(rng, ["icrs", "icrs", "fk5", "fk4", "galactic"])
        ctx.ev("frame_" + f)
        lon = float((lst0 + rng.uniform(-3.1, 3.1)) % (2 * np.pi))
        lat = float(rng.uniform(-1.45, 1.45)) if rng.integers(2) else float(np.clip(lat0 + rng.uniform(-0.5, 0.5), -1.4, 1.4))
        ep = None
        if f == "fk5":
            ep = gen.pick(rng, ["J2000", "J2010.5", "J1980"])
        elif f == "fk4":
            ep = gen.pick(rng, ["B1950", "B1965"])
        return {"type": "sidereal", "frame": f, "lon": lon, "lat": lat, "epoch": ep, "name": f"src{k}"}
    if kind == "driftscan":
        return {"type": "driftscan", "frame": "altaz", "lon": float(rng.uniform(0, 2 * np.pi)),
                "lat": float(rng.uniform(0.1, np.pi / 2 - 0.02)), "epoch": None, "name": f"drift{k}"}
    if kind == "ephem":
        t0, t1 = uv.time_array.min() - 0.01, uv.time_array.max() + 0.01
        n = int(rng.integers(2, 6))
        ts = np.linspace(t0, t1, n)
        x = np.linspace(0, 1, n)
        # keep away from the 0/2pi seam: the model interpolates linearly
        lon0 = float(rng.uniform(0.3, 5.9))
        lat0 = float(rng.uniform(-1.2, 1.2))
        return {"type": "ephem", "frame": "icrs", "lon": lon0 + x * rng.uniform(-0.2, 0.2),
                "lat": lat0 + x * rng.uniform(-0.1, 0.1), "times": ts, "epoch": None, "name": f"ephem{k}"}
    return {"type": "unprojected", "name": f"unp{k}"}


def _phase(uv, c, **kw):
    if c["type"] == "unprojected":
        uv.unproject_phase(cat_name=c["name"], **kw)
        return
    a = dict(lon=c["lon"], lat=c["lat"], phase_frame=c["frame"], cat_type=c["type"], cat_name=c["name"])
    if c.get("epoch"):
        a["epoch"] = c["epoch"]
    elif c["type"] == "driftscan":
        a["epoch"] = None
    if c["type"] == "ephem":
        a["ephem_times"] = c["times"]
    uv.phase(**a, **kw)


STATIC = ("flag_array", "nsample_array", "time_array", "lst_array", "integration_time", "ant_1_array", "ant_2_array",
          "baseline_array", "freq_array", "channel_width", "polarization_array", "flex_spw_id_array", "spw_array",
          "Nblts", "Nbls", "Ntimes", "Nfreqs", "Npols", "Nspws", "history", "vis_units", "scan_number_array")


def _static(uv):
    return {p: np.copy(getattr(uv, p)) if isinstance(getattr(uv, p), np.ndarray) else getattr(uv, p) for p in STATIC}


def _w(uv):
    w = uv.uvw_array[:, 2].copy()
    unp = [i for i, e in uv.phase_center_catalog.items() if e["cat_type"] == "unprojected"]
    w[np.isin(uv.phase_center_id_array, unp)] = 0.0
    return w


def _mk(ctx, **kw):
    rng = ctx.rng
    uv = gen.make_uvdata(rng, nbl=int(rng.integers(1, 7)), chans=int(rng.integers(1, 4)), dtype=np.complex128, **kw)
    if uv.Nblts > 40:
        uv.select(blt_inds=np.arange(40))
    return uv


def s_history(ctx):
    rng = ctx.rng
    uv = _mk(ctx)
    # every record's current center
    cur = [None] * uv.Nblts
    for i in range(uv.Nblts):
        e = uv.phase_center_catalog[int(uv.phase_center_id_array[i])]
        c = {"type": e["cat_type"], "lon": e.get("cat_lon"), "lat": e.get("cat_lat"), "frame": e.get("cat_frame"),
             "epoch": None if e.get("cat_epoch") is None else f"J{e['cat_epoch']}", "name": e["cat_name"]}
        cur[i] = c
    ids = {c["name"]: c for c in cur}
    cur = [ids[c["name"]] for c in cur]
    orig = list(cur)
    blmax = max(1.0, float(np.abs(_bl_enu(uv, np.arange(uv.Nblts))).max()))
    tol = 2e-5 * blmax + 1e-4
    if (np.abs(uv.uvw_array) > 0).any():
        _check_uvw(ctx, uv, cur, tol, "initial object")
    u0, d0 = uv.uvw_array.copy(), uv.data_array.copy()
    log = []
    for k in range(int(rng.integers(1, 5))):
        kind = gen.pick(rng, ["sidereal"] * 3 + ["driftscan", "ephem", "unproject", "to_time", "lookup", "set_uvws"])
        st, ub, db, wb = _static(uv), uv.uvw_array.copy(), uv.data_array.copy(), _w(uv)
        app = [uv.phase_center_app_ra.copy(), uv.phase_center_app_dec.copy(), uv.phase_center_frame_pa.copy()]
        kw = {}
        mask = np.ones(uv.Nblts, bool)
        if kind not in ("set_uvws",) and rng.integers(2):
            mask = rng.random(uv.Nblts) < 0.6
            if not mask.any():
                mask[int(rng.integers(uv.Nblts))] = True
            kw["select_mask"] = mask.copy()
            ctx.ev("masked")
        if kind != "set_uvws" and rng.integers(3) == 0:
            kw["use_ant_pos"] = False
            ctx.ev("no_ant_pos")
            if "select_mask" in kw:
                ctx.ev("masked_no_ant_pos")
        if kind == "set_uvws":
            uv.set_uvws_from_antenna_positions(update_vis=True)
            mask[:] = False
        elif kind == "to_time":
            t = float(uv.time_array.min() + rng.uniform(-0.02, 0.02))
            c = _zenith(uv, t)
            uv.phase_to_time(Time(t, format="jd") if rng.integers(2) else t, **kw)
            c["name"] = "zenith_at_jd%f" % t
            for i in np.nonzero(mask)[0]:
                cur[i] = c
        elif kind == "lookup":
            names = [n for n in ids if any(x["cat_name"] == n for x in uv.phase_center_catalog.values())
                     ]
            if not names:
                continue
            c = ids[gen.pick(rng, sorted(names))]
            uv.phase(lon=0.0, lat=0.0, cat_name=c["name"], lookup_name=True, **kw)
            for i in np.nonzero(mask)[0]:
                cur[i] = c
        else:
            c = _center(ctx, uv, {"unproject": "unprojected"}.get(kind, kind), k)
            ids[c["name"]] = c
            _phase(uv, c, **kw)
            for i in np.nonzero(mask)[0]:
                if not (c["type"] == "unprojected" and cur[i]["type"] == "unprojected"):
                    cur[i] = c
        ctx.ev("op_" + kind)
        log.append((kind, sorted(kw), int(mask.sum())))
        ctx.log(*log[-1])
        what = f"after {log}"
        for p, v in st.items():
            w = getattr(uv, p)
            ctx.check(np.array_equal(w, v) if isinstance(v, np.ndarray) else w == v, f"{what}: {p} changed")
        if kind != "set_uvws":
            un_ = ~mask
            ctx.check(np.array_equal(uv.uvw_array[un_], ub[un_]), f"{what}: uvws of unselected records changed")
            ctx.check(np.array_equal(uv.data_array[un_], db[un_]), f"{what}: visibilities of unselected records changed")
            ctx.check(all(np.array_equal(a[un_], b[un_]) for a, b in zip(
                app, [uv.phase_center_app_ra, uv.phase_center_app_dec, uv.phase_center_frame_pa])),
                f"{what}: apparent coordinates of unselected records changed")
        _check_cat(ctx, uv, cur, what)
        _check_uvw(ctx, uv, cur, tol, what)
        exp = db * np.exp(-2j * np.pi * (_w(uv) - wb)[:, None, None] * uv.freq_array[None, :, None] / C)
        err = np.abs(exp - uv.data_array).max()
        ctx.check(err < 1e-6 * np.abs(db).max(), f"{what}: visibilities do not carry the phase of the uvw change, error {err}")
    # and back
    for c in {id(c): c for c in orig}.values():
        rows = np.array([o is c for o in orig])
        kw = {"select_mask": rows}
        if c["type"] == "unprojected":
            uv.unproject_phase(cat_name=c["name"], **kw)
        else:
            _phase(uv, c, **kw)
    du = np.abs(uv.uvw_array - u0).max()
    ctx.check(du < 1e-6 * blmax + 1e-6, f"going through {log} and back changed the uvws by {du} m")
    phs = 2 * np.pi * uv.freq_array.max() / C * 1e-6 * blmax
    err = np.abs(uv.data_array - d0).max()
    ctx.check(err < (1e-6 + 5 * phs) * np.abs(d0).max(), f"going through {log} and back changed the visibilities by {err}")
    uv.check()
    ctx.ev("restored")
    ctx.case(common.describe_uv(uv), log)


def _zenith(uv, t):
    # the direction overhead at t, as ICRS coordinates
    aa = AltAz(az=0 * un.rad, alt=np.pi / 2 * un.rad, obstime=Time(t, format="jd"), location=uv.telescope.location)
    ic = aa.transform_to(ICRS())
    return {"type": "sidereal", "frame": "icrs", "lon": float(ic.ra.rad), "lat": float(ic.dec.rad), "epoch": None}


def _check_cat(ctx, uv, cur, what):
    used = set()
    for i in range(uv.Nblts):
        pid = int(uv.phase_center_id_array[i])
        used.add(pid)
        ctx.check(pid in uv.phase_center_catalog, f"{what}: phase center id {pid} is not in the catalog")
        e = uv.phase_center_catalog[pid]
        c = cur[i]
        ctx.check(e["cat_type"] == c["type"], lambda: f"{what}: record {i} should be {c}, catalog says {e}")
        ctx.check(e["cat_name"] == c["name"], lambda: f"{what}: record {i} should be {c}, catalog says {e}")
        if c["type"] != "unprojected":
            ctx.check(np.allclose(e["cat_lon"], c["lon"], atol=1e-9, rtol=0) and np.allclose(e["cat_lat"], c["lat"], atol=1e-9, rtol=0)
                      and e["cat_frame"] == c["frame"], lambda: f"{what}: record {i} should be {c}, catalog says {e}")
    ctx.check(uv.Nphase == len(uv.phase_center_catalog), f"{what}: Nphase is {uv.Nphase} for {len(uv.phase_center_catalog)} entries")


def _check_uvw(ctx, uv, cur, tol, what):
    for c in {id(c): c for c in cur}.values():
        rows = np.array([o is c for o in cur])
        m = _model_uvw(uv, rows, c)
        err = np.abs(m - uv.uvw_array[rows]).max()
        ctx.check(err < tol, lambda: f"{what}: uvws of records phased to {c} are off by {err} m (tolerance {tol}); "
                                     f"got {uv.uvw_array[rows][np.abs(m - uv.uvw_array[rows]).max(1).argmax()]}, "
                                     f"expected {m[np.abs(m - uv.uvw_array[rows]).max(1).argmax()]}")


def s_point_source(ctx):
    """Fringes of a point source, computed in the horizon frame, become constant when phased to it."""
    rng = ctx.rng
    uv = _mk(ctx, kinds=["unprojected"], nphase=1)
    c = _center(ctx, uv, gen.pick(rng, ["sidereal", "sidereal", "driftscan", "ephem"]), 0)
    w = _model_uvw(uv, np.arange(uv.Nblts), c)[:, 2]
    ph = np.exp(2j * np.pi * w[:, None] * uv.freq_array[None, :] / C)
    amp = 1 + np.arange(uv.Npols)
    uv.data_array = (ph[:, :, None] * amp).astype(np.complex128)
    if rng.integers(2):
        # through another center first
        _phase(uv, _center(ctx, uv, gen.pick(rng, ["sidereal", "driftscan"]), 1), use_ant_pos=bool(rng.integers(2)))
    _phase(uv, c, use_ant_pos=bool(rng.integers(2)))
    blmax = max(1.0, float(np.abs(uv.uvw_array).max()))
    tol = 2 * np.pi * (1e-5 * blmax + 1e-4) * uv.freq_array.max() / C + 1e-6
    err = np.abs(uv.data_array - amp).max() / uv.Npols
    ctx.check(err < tol, lambda: f"a point source at {c} is not constant after phasing to it: error {err}, tolerance {tol}")
    ctx.ev("point_source")
    ctx.case("point", common.describe_uv(uv), {k: str(v) for k, v in c.items()})


def s_antpos(ctx):
    """New antenna positions: uvws follow, and projected visibilities follow the uvws."""
    rng = ctx.rng
    uv = _mk(ctx)
    ref = uv.copy()
    new = {}
    for a, p in zip(uv.telescope.antenna_numbers, uv.telescope.antenna_positions):
        if rng.integers(2):
            new[int(a)] = p + rng.uniform(-5, 5, 3)
    if not new:
        new[int(uv.telescope.antenna_numbers[0])] = uv.telescope.antenna_positions[0] + 1.0
    delta = bool(rng.integers(2))
    upd = bool(rng.integers(3))
    w0 = _w(uv)
    off = np.zeros(3)
    uv.update_antenna_positions(new, delta_antpos=delta, update_vis=upd)
    for a, p0, p1 in zip(uv.telescope.antenna_numbers, ref.telescope.antenna_positions, uv.telescope.antenna_positions):
        ctx.check(np.array_equal(p1, new.get(int(a), p0)), f"antenna {a} is at {p1}, should be {new.get(int(a), p0)}")
    # an object built with the new positions has the uvws wanted
    want = ref.copy()
    want.telescope.antenna_positions = uv.telescope.antenna_positions.copy()
    want.set_uvws_from_antenna_positions(update_vis=False)
    err = np.abs(want.uvw_array - uv.uvw_array).max()
    ctx.check(err < 1e-6, f"uvws do not follow the new antenna positions: off by {err}")
    exp = ref.data_array
    if upd:
        exp = exp * np.exp(-2j * np.pi * (_w(uv) - w0)[:, None, None] * uv.freq_array[None, :, None] / C)
    e2 = np.abs(exp - uv.data_array).max()
    ctx.check(e2 < 1e-6 * np.abs(exp).max(), f"visibilities do not follow the new antenna positions (delta_antpos={delta}, update_vis={upd}): error {e2}")
    d = canon.diff(ref, uv, ignore=("uvw_array", "data_array", "telescope.antenna_positions"), exact=True)
    ctx.check(not d, lambda: f"update_antenna_positions changed other things: {d[:3]}")
    ctx.ev("antpos_delta" if delta else "antpos_plain")
    ctx.case("antpos", common.describe_uv(uv), delta, upd, sorted(new))


SCENARIOS = [Scenario("history", s_history, 600, 6000), Scenario("point_source", s_point_source, 200, 2500),
             Scenario("antpos", s_antpos, 200, 2000)]
