"""C03 Miriad round trip."""
import os

import numpy as np

from pyuvdata import UVData
from vmon import canon, gen
from vmon.core import Scenario
from vmon.props import common
from vmon.props.c02 import compare_catalog

RULE = (
    "random valid UVData objects the format can hold (evenly spaced channels, one "
    "orientation per baseline), random in-place history, written as Miriad and read back "
    "through the C library; non-trivial = distinct object that reached the comparison"
)
REQUIRED = ["miriad_written", "miriad_read", "multi_spw", "multi_phase", "drift", "projected",
            "ragged", "big_ants", "descending", "moving_read", "driftscan", "ephem_exact", "ephem_grid", "height_guessed", "foreign_relative"]


def mir_uv(ctx, **kw):
    rng = ctx.rng
    if rng.integers(4) == 0:
        kw.setdefault("antnums", np.sort(rng.choice(gen.pick(rng, [256, 600, 1300]), 5, replace=False)))
    else:
        kw.setdefault("antnums", rng.choice(gen.pick(rng, [8, 60, 200]), int(rng.integers(3, 8)), replace=False))
    kinds = gen.pick(rng, [["sidereal"], ["sidereal"], ["unprojected"]])
    kw.setdefault("nphase", 1 if kinds == ["unprojected"] else None)
    kw.setdefault("diameters", False)
    # the format stamps the start of an integration: records of one time share its length
    kw.setdefault("int_time", float(rng.integers(1, 200)) / 8)
    return gen.make_uvdata(rng, even_freq=True, kinds=kinds, **kw)


TOLS = {
    "time_array": 1e-3 / 86400, "lst_array": 1e-7, "uvw_array": 1e-6, "integration_time": 1e-4,
    "freq_array": 1e-3, "channel_width": 1e-3, "telescope.location": 1e-3,
    "telescope.antenna_positions": 1e-4, "phase_center_app_ra": 1e-8,
    "phase_center_app_dec": 1e-8, "phase_center_frame_pa": 1e-7,
}


def s_roundtrip(ctx):
    rng = ctx.rng
    uv = mir_uv(ctx)
    common.random_ops(ctx, uv)
    if rng.integers(4) == 0:
        uv.dut1, uv.earth_omega, uv.gst0 = 0.25, 360.985, 181.5
        uv.rdate, uv.timesys = "2015-03-01", "UTC"
    if rng.integers(4) == 0:
        uv.telescope.antenna_diameters = np.full(uv.telescope.Nants, float(rng.integers(5, 30)))
    ctx.case(common.describe_uv(uv))
    if uv.Nspws > 1:
        ctx.ev("multi_spw")
    if uv.Nphase > 1:
        ctx.ev("multi_phase")
    ctx.ev("drift" if "unprojected" in [c["cat_type"] for c in uv.phase_center_catalog.values()] else "projected")
    if uv.Nblts != uv.Nbls * uv.Ntimes:
        ctx.ev("ragged")
    if max(uv.ant_1_array.max(), uv.ant_2_array.max()) > 255:
        ctx.ev("big_ants")
    if np.any(np.diff(uv.freq_array) < 0):
        ctx.ev("descending")
    before = canon.snap(uv)
    led = canon.oriented(uv, spw_ids=False, catalog=False)
    led["data_array"] = led["data_array"].astype(np.complex64)
    fn = ctx.path("a.uv")
    opt = {}
    if rng.integers(3) == 0:
        opt["calc_lst"] = True
    uv.write_miriad(fn, **opt)
    ctx.ev("miriad_written")
    # writing may reorient baselines in the object (documented by the format), no more
    led1 = canon.oriented(uv, spw_ids=False, catalog=False)
    led1["data_array"] = led1["data_array"].astype(np.complex64)
    d = canon.dictdiff(led, led1, exact=True, tols={"uvw_array": 0})
    ctx.check(not d, lambda: f"write_miriad changed the object in memory: {d[:4]}")
    u2 = UVData()
    if rng.integers(2):
        u2.read(fn)
    else:
        u2.read_miriad(fn)
    ctx.ev("miriad_read")
    got = canon.oriented(u2, spw_ids=False, catalog=False)
    got["data_array"] = got["data_array"].astype(np.complex64)
    got["nsample_array"] = got["nsample_array"].astype(np.float32)
    tols = dict(TOLS)
    d = canon.dictdiff(led, got, tols=tols)
    ctx.check(not d, lambda: f"miriad round trip: {d[:6]}")
    before["phase_center_catalog"] = {
        k: v for k, v in before["phase_center_catalog"].items() if k in before["phase_center_id_array"]}
    compare_catalog(ctx, before, u2, "miriad round trip") if "unprojected" not in [
        c["cat_type"] for c in before["phase_center_catalog"].values()] else None
    ek = {k[:8]: v for k, v in before["extra_keywords"].items()}
    got_ek = {k: v for k, v in u2.extra_keywords.items() if k in ek}
    r = canon.valdiff(ek, got_ek, path="extra_keywords")
    ctx.check(r is None, lambda: f"miriad round trip: {r}")
    for a in ("dut1", "earth_omega", "gst0", "rdate", "timesys"):
        if before[a] is not None:
            r = canon.valdiff(before[a], getattr(u2, a), atol=1e-9, path=a)
            ctx.check(r is None, lambda: f"miriad round trip: {r}")
    flat = "".join(before["history"].split())
    ctx.check(flat in "".join(u2.history.split()), "history lost")
    common.sane(ctx, u2, "miriad round trip", claims=False)


def s_moving(ctx):
    """Phase centers whose coordinates change with time, and driftscans (stored as moving ones)."""
    rng = ctx.rng
    uv = mir_uv(ctx, nphase=1)
    common.random_ops(ctx, uv, allow=("select", "reorder", "freq", "pol"))
    t = uv.time_array
    nsrc = int(rng.integers(1, 3)) if uv.Nblts > 1 else 1
    srcs = []
    who = rng.integers(0, nsrc, uv.Nblts)
    who[:nsrc] = np.arange(nsrc)
    for k in range(nsrc):
        m = who == k
        kind = gen.pick(rng, ["ephem", "ephem", "driftscan", "sidereal"])
        name = f"{kind}{k}"
        span = max(t.max() - t.min(), 1e-4)
        if kind == "ephem":
            style = gen.pick(rng, ["exact", "grid"] if np.unique(t).size > 1 else ["exact", "one"])
            if style in ("exact", "one"):
                ts = np.unique(t)
            elif style == "grid":
                ts = np.linspace(t.min() - 0.1 * span, t.max() + 0.1 * span, int(rng.integers(2, 8)))
            if style == "grid" and np.ptp(t) == 0:
                ts = np.unique(t)
            x = (ts - t.min()) / span
            lon = rng.uniform(0.3, 5.9) + x * rng.uniform(-0.02, 0.02)
            lat = rng.uniform(-1.2, 1.2) + x * rng.uniform(-0.01, 0.01)
            if style == "exact" and ts.size > 2:
                lon = lon + rng.uniform(-1e-3, 1e-3, ts.size)
            frame = gen.pick(rng, ["icrs", "fk5"])
            kw = dict(lon=lon, lat=lat, phase_frame=frame, cat_type="ephem", ephem_times=ts, cat_name=name)
            kw["epoch"] = 2000.0 if frame == "icrs" else gen.pick(rng, [2000.0, 2010.0])
            ctx.ev("ephem_" + style)
        elif kind == "driftscan":
            kw = dict(lon=rng.uniform(0, 2 * np.pi), lat=rng.uniform(0.3, 1.5), phase_frame="altaz", cat_type="driftscan",
                      epoch=None, cat_name=name)
            ctx.ev("driftscan")
        else:
            kw = dict(lon=rng.uniform(0, 2 * np.pi), lat=rng.uniform(-1.3, 1.3), phase_frame="icrs", cat_name=name)
        srcs.append((kind, name, kw, m))
        uv.phase(select_mask=m, **kw)
    ctx.case("moving", [k for k, *_ in srcs], common.describe_uv(uv))
    cat = {c["cat_name"]: {k: np.copy(v) if isinstance(v, np.ndarray) else v for k, v in c.items()} for c in uv.phase_center_catalog.values()}
    led = canon.oriented(uv, spw_ids=False, catalog=False)
    led["data_array"] = led["data_array"].astype(np.complex64)
    fn = ctx.path("a.uv")
    uv.write_miriad(fn)
    u2 = UVData.from_file(fn)
    got = canon.oriented(u2, spw_ids=False, catalog=False)
    got["data_array"] = got["data_array"].astype(np.complex64)
    got["nsample_array"] = got["nsample_array"].astype(np.float32)
    d = canon.dictdiff(led, got, tols=TOLS)
    ctx.check(not d, lambda: f"miriad round trip of moving phase centers: {d[:6]}")
    new = {c["cat_name"]: (i, c) for i, c in u2.phase_center_catalog.items()}
    ctx.check(set(new) == {n for _, n, _, m in srcs if m.any()}, lambda: f"catalog names {sorted(new)}, written {[s[1] for s in srcs]}")
    for kind, name, kw, m in srcs:
        i, c = new[name]
        rec = u2.phase_center_id_array == i
        times = np.unique(u2.time_array[rec])
        ctx.check(times.size == np.unique(t[m]).size, f"{name}: records of {times.size} times, written {np.unique(t[m]).size}")
        old = cat[name]
        if kind == "sidereal":
            lon, lat = np.full(times.size, old["cat_lon"]), np.full(times.size, old["cat_lat"])
        elif kind == "ephem":
            ts = old["cat_times"]
            if ts.size == 1:
                lon, lat = np.full(times.size, old["cat_lon"][0]), np.full(times.size, old["cat_lat"][0])
            else:
                lon, lat = np.interp(times, ts, old["cat_lon"]), np.interp(times, ts, old["cat_lat"])
        else:
            from astropy.coordinates import SkyCoord
            from astropy.time import Time
            sc = SkyCoord(az=np.full(times.size, old["cat_lon"]), alt=np.full(times.size, old["cat_lat"]), unit="rad", frame="altaz",
                          location=uv.telescope.location, obstime=Time(times, format="jd")).fk5
            lon, lat = sc.ra.rad, sc.dec.rad
        # cubic and linear interpolation agree on tracks which are straight lines
        tol = 2e-7 if kind == "driftscan" else 1e-7
        if c["cat_type"] == "ephem":
            ctx.check(c["cat_times"].size == times.size and np.allclose(np.sort(c["cat_times"]), times, rtol=0, atol=1e-3 / 86400),
                      lambda: f"{name}: ephemeris times {c['cat_times']} for records at {times}")
            o = np.argsort(c["cat_times"])
            gl, gb = np.asarray(c["cat_lon"])[o], np.asarray(c["cat_lat"])[o]
            ctx.ev("moving_read")
        else:
            ctx.check(c["cat_type"] == "sidereal", f"{name}: written as {kind}, read as {c['cat_type']}")
            gl, gb = np.full(times.size, float(c["cat_lon"])), np.full(times.size, float(c["cat_lat"]))
            if kind != "sidereal" and np.ptp(lat) + np.ptp(lon) > 1e-7:
                ctx.fail(f"{name}: a moving phase center ({np.ptp(lon):.3g} rad) was read as fixed")
        dl = np.abs((gl - lon + np.pi) % (2 * np.pi) - np.pi)
        ctx.check(np.all(dl < tol) and np.all(np.abs(gb - lat) < tol), lambda: f"{name} ({kind}): coordinates off by {dl.max():.3g}, {np.abs(gb - lat).max():.3g} rad")
        ctx.check(c["cat_frame"] == (old["cat_frame"] if kind != "driftscan" else "fk5"), lambda: f"{name}: frame {old['cat_frame']} -> {c['cat_frame']}")
    common.sane(ctx, u2, "miriad round trip", claims=False)


def s_foreign(ctx):
    """Files without what only this library writes: missing variables, absolute antenna positions."""
    from pyuvdata.uvdata import aipy_extracts

    rng = ctx.rng
    uv = mir_uv(ctx, nphase=1, flags="some") if False else mir_uv(ctx, nphase=1)
    uv.extra_keywords = {}
    uv.telescope.antenna_diameters = None
    proj = [c["cat_type"] for c in uv.phase_center_catalog.values()][0] == "sidereal"
    fn, fn2 = ctx.path("a.uv"), ctx.path("b.uv")
    uv.write_miriad(fn)
    drop = [v for v in ("antnums", "antnames", "altitude", "obsra", "obsdec", "obspa", "phsframe", "telescop") if rng.integers(2)]
    if "obsra" in drop or "obsdec" in drop:
        drop = [d for d in drop if d not in ("obsra", "obsdec")] + ["obsra", "obsdec"]
    if not proj and "phsframe" in drop:
        drop.remove("phsframe")
    drop = [d for d in drop if d != "telescop"]
    absolute = bool(rng.integers(2))
    ctx.case("foreign", sorted(drop), "absolute" if absolute else "relative", common.describe_uv(uv))
    ctx.ev("foreign_absolute" if absolute else "foreign_relative")
    for d in drop:
        ctx.ev("without_" + d)
    src = aipy_extracts.UV(fn)
    over = {}
    lon = float(src["longitu"])
    rot = np.array([[np.cos(lon), np.sin(lon), 0], [-np.sin(lon), np.cos(lon), 0], [0, 0, 1]])
    c_ns = 0.299792458
    tel = np.array([uv.telescope.location.x.to_value("m"), uv.telescope.location.y.to_value("m"), uv.telescope.location.z.to_value("m")])
    if not absolute:
        nants = int(src["nants"])
        ap = np.zeros((nants, 3))
        for n, x in zip(uv.telescope.antenna_numbers, uv.telescope.antenna_positions):
            ap[n] = rot @ np.asarray(x) / c_ns
        over["antpos"] = ap.T.flatten()
    dst = aipy_extracts.UV(fn2, status="new")
    dst.init_from_uv(src, exclude=drop, override=over)
    dst.pipe(src, raw=True)
    dst.close()
    src.close()
    led = canon.oriented(uv, spw_ids=False, catalog=False)
    led["data_array"] = led["data_array"].astype(np.complex64)
    u2 = UVData.from_file(fn2, run_check=True, strict_uvw_antpos_check=False)
    # antennas: by number
    want = dict(zip(uv.telescope.antenna_numbers.tolist(), np.asarray(uv.telescope.antenna_positions)))
    names = dict(zip(uv.telescope.antenna_numbers.tolist(), list(uv.telescope.antenna_names)))
    gnum = u2.telescope.antenna_numbers.tolist()
    have = set(want)
    ctx.check(set(gnum) == have, lambda: f"antennas {sorted(gnum)} read, {sorted(have)} in the file")
    off = 0
    if "altitude" in drop and absolute:
        # the reader has to guess the height; the antennas stay where they are on the ground
        l2 = u2.telescope.location
        off = tel - np.array([l2.x.to_value("m"), l2.y.to_value("m"), l2.z.to_value("m")])
        ctx.ev("height_guessed")
    for n, x in zip(gnum, np.asarray(u2.telescope.antenna_positions)):
        ctx.check(np.allclose(x, want[n] + off, rtol=0, atol=1e-3), lambda: f"antenna {n} is at {x}, in the file {want[n] + off}")
    for n, nm in zip(gnum, list(u2.telescope.antenna_names)):
        ctx.check(str(nm) == (str(n) if "antnames" in drop and "antnums" not in drop or "antnames" in drop else names[n]),
                  lambda: f"antenna {n} is called {nm}, in the file {names[n]}") if not ("antnums" in drop and "antnames" not in drop) else None
    loc = u2.telescope.location
    ctx.check(abs(loc.lat.rad - uv.telescope.location.lat.rad) < 1e-9 and abs((loc.lon.rad - uv.telescope.location.lon.rad + np.pi) % (2 * np.pi) - np.pi) < 1e-9,
              lambda: f"telescope at {loc.geodetic}, in the file {uv.telescope.location.geodetic}")
    if "altitude" not in drop:
        ctx.check(abs(loc.height.to_value("m") - uv.telescope.location.height.to_value("m")) < 1e-3, "altitude of the file not used")
    ign = set()
    got = canon.oriented(u2, spw_ids=False, catalog=False)
    got["data_array"] = got["data_array"].astype(np.complex64)
    got["nsample_array"] = got["nsample_array"].astype(np.float32)
    tols = dict(TOLS)
    if "altitude" in drop:
        ign |= {"telescope.location"}
        tols["lst_array"] = tols["phase_center_app_ra"] = 1e-6
    if {"obsra", "obspa", "obsdec"} & set(drop):
        ign |= {"phase_center_app_ra", "phase_center_app_dec", "phase_center_frame_pa"}
    ign |= {k for k in set(led) | set(got) if k.startswith("telescope.") and k != "telescope.location"}
    d = canon.dictdiff(led, got, tols=tols, ignore=ign)
    ctx.check(not d, lambda: f"foreign miriad file without {sorted(drop)}: {d[:6]}")


SCENARIOS = [Scenario("roundtrip", s_roundtrip, 1500, 25000), Scenario("moving", s_moving, 160, 3000),
             Scenario("foreign", s_foreign, 160, 3000)]
