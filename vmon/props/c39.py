"""C39 Telescope and antenna metadata stay consistent."""
import copy
import csv
import os

import h5py
import numpy as np
from astropy.coordinates import EarthLocation

import pyuvdata
from pyuvdata import Telescope, UVFlag
from pyuvdata.data import DATA_PATH
from pyuvdata.telescopes import known_telescope_location
from vmon import canon, gen
from vmon.core import Scenario, Skip
from vmon.props import flagcommon as fc

RULE = (
    "telescopes with shuffled, sparse and unsorted antennas are built from arrays, lists and dicts, completed from the known-telescope tables (independently parsed) "
    "with names matched partly by name and partly by number, written to and read from HDF5, turned to ENU, and shared between visibility, calibration and flag objects "
    "that are then selected, re-sorted and re-positioned; each antenna's (number, name, position, diameter) record is followed. non-trivial = distinct (telescope, operation)"
)
REQUIRED = ["new_array", "new_dict_int", "new_dict_str", "new_names_only", "new_numbers_only", "new_refused", "known_full", "known_by_name", "known_by_number", "known_mixed", "known_unknown", "known_kept",
            "overwrite", "diameters_filled", "site_location", "hdf5", "moon", "enu", "enu_data", "share_uvdata", "share_uvcal", "share_flag", "share_op"]
TELATTR = ("antenna_numbers", "antenna_names", "antenna_positions", "antenna_diameters")


def rec(t):
    return {int(n): (str(t.antenna_names[i]), tuple(float(x) for x in t.antenna_positions[i]), None if t.antenna_diameters is None else float(t.antenna_diameters[i]))
            for i, n in enumerate(t.antenna_numbers)}


def loc(t):
    return canon.loc_xyz(t.location)


_tab = {}


def table(name):
    """independent parse of the known antenna tables"""
    if name not in _tab:
        with open(os.path.join(DATA_PATH, {"HERA": "hera_ant_pos.csv", "MWA": "mwa_ant_pos.csv"}[name])) as f:
            rows = list(csv.reader(f))[1:]
        _tab[name] = [(r[0].strip(), int(r[1]), tuple(float(x) for x in r[2:5])) for r in rows]
    return _tab[name]


def new(ctx):
    rng = ctx.rng
    n = int(rng.integers(1, 9))
    nums = [int(x) for x in rng.choice(300, n, replace=False)]
    names = [f"A{x}" for x in rng.permutation(n)]
    pos = rng.uniform(-100, 100, (n, 3))
    dia = rng.uniform(3, 20, n) if rng.integers(2) else None
    la, lo, al = gen.pick(rng, gen.SITES)
    from astropy import units as un

    L = EarthLocation.from_geodetic(lon=lo * un.deg, lat=la * un.deg, height=al * un.m)
    xo = gen.pick(rng, [None, "east", "north", "e", "n", "ew", "ns", "East"])
    kw = {"name": "T", "location": L, "x_orientation": xo, "instrument": gen.pick(rng, [None, "I"])}
    if dia is not None:
        kw["antenna_diameters"] = dia.tolist() if rng.integers(2) else dia
    form = gen.pick(rng, ["array", "dict_int", "dict_str", "names_only", "numbers_only"])
    fmt = gen.pick(rng, [None, "ant{0:04d}", "{0}"])
    lst = (lambda x: np.array(x)) if rng.integers(2) else (lambda x: list(x))
    if form == "array":
        kw.update(antenna_positions=pos.copy(), antenna_names=lst(names), antenna_numbers=lst(nums))
    elif form == "dict_int":
        kw.update(antenna_positions={k: p for k, p in zip(nums, pos)})
        if rng.integers(2):
            kw["antenna_names"] = lst(names)
        else:
            names = [(fmt or "{0:03d}").format(k) for k in nums]
    elif form == "dict_str":
        if rng.integers(2):
            kw.update(antenna_positions={k: p for k, p in zip(names, pos)}, antenna_numbers=lst(nums))
        else:
            names = [str(k) for k in nums]
            kw.update(antenna_positions={k: p for k, p in zip(names, pos)})
    elif form == "names_only":
        names = [f"{k:03d}" for k in nums]
        kw.update(antenna_positions=pos.copy(), antenna_names=lst(names))
    else:
        kw.update(antenna_positions=pos.copy(), antenna_numbers=lst(nums))
        names = [(fmt or "{0:03d}").format(k) for k in nums]
    if fmt:
        kw["antname_format"] = fmt
    ctx.case(form, n, fmt, xo)
    t = Telescope.new(**kw)
    want = {k: (names[i], tuple(pos[i]), None if dia is None else float(dia[i])) for i, k in enumerate(nums)}
    ctx.check(rec(t) == want, lambda: f"Telescope.new from {form}: {[(k, rec(t).get(k), want[k]) for k in want if rec(t).get(k) != want[k]][:1]}")
    ctx.check(t.Nants == n and np.allclose(loc(t), canon.loc_xyz(L), atol=1e-6), "Telescope.new: location or number of antennas")
    ctx.check(t.x_orientation == (None if xo is None else ("east" if xo[0].lower() == "e" else "north")), f"x_orientation {xo} became {t.x_orientation}")
    ctx.ev("new_" + form)
    bad = gen.pick(rng, ["dupname", "dupnum", "short", "none"])
    if n > 1:
        k2 = {"name": "T", "location": L, "antenna_positions": pos, "antenna_names": list(names), "antenna_numbers": list(nums)}
        if bad == "dupname":
            k2["antenna_names"][0] = k2["antenna_names"][1]
        elif bad == "dupnum":
            k2["antenna_numbers"][0] = k2["antenna_numbers"][1]
        elif bad == "short":
            k2["antenna_positions"] = pos[1:]
        else:
            del k2["antenna_names"], k2["antenna_numbers"]
        ctx.raises(ValueError, lambda: Telescope.new(**k2), f"Telescope.new with {bad}")
        ctx.ev("new_refused")


def known(ctx):
    rng = ctx.rng
    name = gen.pick(rng, ["HERA", "MWA"])
    tab = table(name)
    byname = {r[0]: r for r in tab}
    bynum = {r[1]: r for r in tab}
    mode = gen.pick(rng, ["full", "name", "number", "mixed", "unknown", "kept", "overwrite"])
    ctx.case(name, mode, int(rng.integers(1 << 30)))
    if name == "HERA":
        wloc = canon.loc_xyz(known_telescope_location(name))
    elif mode in ("full", "overwrite"):
        raise Skip()  # the location of MWA comes from the network
    if mode == "full":
        t = Telescope.from_known_telescopes(name if rng.integers(2) or name == "MWA" else name.lower())
        want = {r[1]: (r[0], r[2], 14.0 if name == "HERA" else None) for r in tab}
        ctx.check(rec(t) == want, "from_known_telescopes: antennas do not match the table")
        ctx.check(np.allclose(loc(t), wloc, atol=1e-6), "from_known_telescopes: location")
        ctx.ev("known_full")
        return
    t = Telescope()
    t.name = name
    n = int(rng.integers(1, 8))
    pickd = [tab[i] for i in rng.permutation(len(tab))[:n]]
    t.Nants = n
    ev = "known_by_name"
    names, nums = [r[0] for r in pickd], [r[1] for r in pickd]
    if mode == "name":
        t.antenna_names = np.array(names)
    elif mode == "number":
        t.antenna_numbers = np.array(nums)
        ev = "known_by_number"
    elif mode in ("mixed", "overwrite", "kept"):
        # names the table does not have are matched by number
        odd = rng.random(n) < 0.5
        names = [f"odd{k}" if o else k for k, o in zip(names, odd)]
        t.antenna_names, t.antenna_numbers = np.array(names), np.array(nums)
        ev = "known_mixed"
    else:
        t.antenna_names, t.antenna_numbers = np.array(["nosuch"] + names[1:]), np.array([999999] + nums[1:])
    if mode == "kept":
        p = rng.uniform(-9, 9, (n, 3))
        t.antenna_positions = p
        t.location = gen.make_telescope(rng).location
        before = loc(t)
        t.update_params_from_known_telescopes(warn=bool(rng.integers(2)))
        ctx.check(np.array_equal(t.antenna_positions, p) and np.allclose(loc(t), before, atol=1e-6) and t.antenna_names.tolist() == names and t.antenna_numbers.tolist() == nums,
                  "values that were set were replaced without overwrite")
        if name == "HERA":
            ctx.check(np.array_equal(t.antenna_diameters, np.full(n, 14.0)), "HERA diameters not filled in")
            ctx.ev("diameters_filled")
        ctx.ev("known_kept")
        return
    if mode == "overwrite":
        t.antenna_positions = rng.uniform(-9, 9, (n, 3))
        t.location = gen.make_telescope(rng).location
        t.update_params_from_known_telescopes(overwrite=True, warn=False)
        want = {r[1]: (r[0], r[2], 14.0 if name == "HERA" else None) for r in tab}
        ctx.check(rec(t) == want and np.allclose(loc(t), wloc, atol=1e-6), "overwrite: not the values of the known telescope")
        ctx.ev("overwrite")
        return
    if name == "MWA":
        t.location = gen.make_telescope(rng).location
        wloc = loc(t)
    t.update_params_from_known_telescopes(warn=False, run_check=False)
    ctx.check(np.allclose(loc(t), wloc, atol=1e-6), "location not that of the known telescope")
    if mode == "unknown":
        ctx.check(t.antenna_positions is None and t.antenna_names.tolist() == ["nosuch"] + names[1:] and t.antenna_numbers.tolist() == [999999] + nums[1:], "antennas missing from the table were given metadata")
        ctx.ev("known_unknown")
        return
    got = rec(t)
    want = {r[1]: (names[i], r[2], 14.0 if name == "HERA" else None) for i, r in enumerate(pickd)}
    ctx.check(list(got) == nums and got == want, lambda: f"{name} {mode}: antenna metadata swapped, e.g. {[(k, got.get(k), want[k]) for k in want if got.get(k) != want[k]][:1]}")
    t.check()
    ctx.ev(ev)


def sites(ctx):
    rng = ctx.rng
    s = [x for x in EarthLocation.get_site_names() if x != ""]
    name = str(rng.choice(s))
    t = Telescope()
    t.name = name
    ctx.case(name)
    t.update_params_from_known_telescopes(warn=False, run_check=False)
    ctx.check(np.allclose(loc(t), canon.loc_xyz(EarthLocation.of_site(name)), atol=1e-6), f"location of {name}")
    t.name = "no such telescope"
    t.location = None
    ctx.raises(ValueError, lambda: t.update_params_from_known_telescopes(), "updating an unknown telescope")
    ctx.ev("site_location")


def hdf5(ctx):
    rng = ctx.rng
    t = gen.make_telescope(rng, nants=int(rng.integers(1, 9)), antnums=None)
    if rng.integers(4) == 0:
        from lunarsky import MoonLocation

        p = rng.uniform(-50, 50, (t.Nants, 3))
        ell = gen.pick(rng, ["SPHERE", "GSFC", "GRAIL23", "CE-1-LAM-GEO"])
        L = MoonLocation.from_selenodetic(lon=float(rng.uniform(-180, 180)), lat=float(rng.uniform(-80, 80)), height=float(rng.uniform(0, 3000)), ellipsoid=ell)
        t.location = L
        t.antenna_positions = p
        ctx.ev("moon")
    o = rng.permutation(t.Nants)
    for a in TELATTR:
        if getattr(t, a) is not None:
            setattr(t, a, getattr(t, a)[o])
    if rng.integers(3) == 0:
        t.instrument = None
    if rng.integers(3) == 0:
        t.x_orientation = None
    ctx.case(t.Nants, t.antenna_numbers, type(t.location).__name__)
    s = canon.snap(t)
    f = ctx.path("t.h5")
    with h5py.File(f, "w") as h:
        t.write_hdf5_header(h.create_group("Header"))
        h.create_group("Data")
    r = Telescope.from_hdf5(f, run_check=False)
    d = canon.diff(s, r, tols={"location": 1e-5, "telescope.location": 1e-5})
    ctx.check(not d, lambda: f"telescope read back from HDF5: {d[:2]}")
    ctx.check(rec(r) == rec(t) and type(r.location) is type(t.location), "antennas read back from HDF5")
    ctx.check(np.allclose(loc(r), loc(t), atol=1e-5), "location read back from HDF5")
    if hasattr(t.location, "ellipsoid") and type(t.location).__name__ == "MoonLocation":
        ctx.check(r.location.ellipsoid == t.location.ellipsoid, f"ellipsoid {r.location.ellipsoid}")
    ctx.ev("hdf5")


def _enu(xyz, lat, lon):
    sl, cl, sp, cp = np.sin(lon), np.cos(lon), np.sin(lat), np.cos(lat)
    R = np.array([[-sl, cl, 0], [-sp * cl, -sp * sl, cp], [cp * cl, cp * sl, sp]])
    return xyz @ R.T


def enu(ctx):
    rng = ctx.rng
    uv = gen.make_uvdata(rng, nants=int(rng.integers(2, 8)))
    t = uv.telescope
    ctx.case(t.antenna_numbers)
    want = _enu(t.antenna_positions, t.location.lat.rad, t.location.lon.rad)
    got = t.get_enu_antpos()
    ctx.check(np.allclose(got, want, atol=1e-6), lambda: f"get_enu_antpos: {got[0]}, expected {want[0]}")
    pos, ants = uv.get_enu_data_ants()
    have = set(uv.ant_1_array.tolist()) | set(uv.ant_2_array.tolist())
    ctx.check(set(ants.tolist()) == have and len(ants) == len(have), "get_enu_data_ants: antennas")
    ix = {int(k): i for i, k in enumerate(t.antenna_numbers)}
    ctx.check(np.allclose(pos, want[[ix[int(a)] for a in ants]], atol=1e-6), "get_enu_data_ants: positions belong to other antennas")
    back = pyuvdata.utils.ECEF_from_ENU(got, center_loc=t.location) - loc(t)
    ctx.check(np.allclose(back, t.antenna_positions, atol=1e-6), "ENU and back moved an antenna")
    ctx.ev("enu"), ctx.ev("enu_data")


def share(ctx):
    """objects built from one Telescope do not see each other's changes"""
    rng = ctx.rng
    tel = gen.make_telescope(rng, nants=int(rng.integers(3, 7)))
    o = rng.permutation(tel.Nants)
    for a in TELATTR:
        if getattr(tel, a) is not None:
            setattr(tel, a, getattr(tel, a)[o])
    want, stel = rec(tel), canon.snap(tel)
    objs = []
    for k in range(3):
        w = gen.pick(rng, ["uvdata", "uvcal", "flag"])
        if w == "uvdata":
            x = gen.make_uvdata(rng, tel=tel, nphase=1)
        elif w == "uvcal":
            x = gen.make_uvcal(rng, tel=tel)
        else:
            x = UVFlag(gen.make_uvdata(rng, tel=tel, nphase=1), mode="flag")
        objs.append(x)
        ctx.ev("share_" + w)
    snaps = [canon.snap(x) for x in objs]
    k = int(rng.integers(len(objs)))
    x = objs[k]
    op = gen.pick(rng, ["trim", "reposition", "sort_like", "params", "rename", "phase"])
    ctx.case([type(y).__name__ for y in objs], k, op, o)
    cls = type(x).__name__
    if op == "trim" and cls != "UVFlag":
        a = int(x.ant_1_array[0] if cls == "UVData" else x.ant_array[0])
        if cls == "UVData":
            x.select(bls=[(int(x.ant_1_array[0]), int(x.ant_2_array[0]))], keep_all_metadata=False)
        else:
            x.select(antenna_nums=[a], keep_all_metadata=False) if False else x.select(antenna_nums=[a])
    elif op == "reposition" and cls == "UVData":
        n0 = str(x.telescope.antenna_names[0])
        x.update_antenna_positions(new_positions={n0: np.array([1.0, 2.0, 3.0])})
    elif op == "sort_like" and cls == "UVFlag":
        y = copy.deepcopy(x)
        p = rng.permutation(y.telescope.Nants)
        for a in TELATTR:
            if getattr(y.telescope, a) is not None:
                setattr(y.telescope, a, getattr(y.telescope, a)[p])
        x.sort_ant_metadata_like(y)
    elif op == "params":
        x.telescope.x_orientation = "north" if x.telescope.x_orientation == "east" else "east"
    elif op == "phase" and cls == "UVData":
        x.phase(ra=0.1, dec=-0.5, phase_frame="icrs", cat_name="here")
    else:
        x.telescope.antenna_names = x.telescope.antenna_names[::-1].copy()
    for j, y in enumerate(objs):
        if j != k:
            d = canon.diff(snaps[j], y, exact=True)
            ctx.check(not d, lambda: f"{op} on a {cls} changed a {type(y).__name__} built from the same Telescope: {d[:2]}", mech="shared-telescope")
    d = canon.diff(stel, tel, exact=True)
    ctx.check(not d, lambda: f"{op} on a {cls} changed the Telescope it was built from: {d[:2]}", mech="shared-telescope")
    ctx.check(rec(tel) == want, "antennas swapped")
    ctx.ev("share_op")


SCENARIOS = [
    Scenario("new", new, 300, 3000),
    Scenario("known", known, 160, 1600),
    Scenario("sites", sites, 30, 150),
    Scenario("hdf5", hdf5, 100, 1000),
    Scenario("enu", enu, 80, 800),
    Scenario("share", share, 150, 1500),
]
