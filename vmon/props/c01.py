"""C01 UVH5 round trip."""
import os

import h5py
import numpy as np

from pyuvdata import UVData
from pyuvdata.uvdata import FastUVH5Meta
from vmon import canon, gen
from vmon.core import Scenario
from vmon.props import common

RULE = (
    "random valid UVData objects (array size, antenna numbering, blt layout, spws, pols, "
    "phase centers, dtypes, flags, weights, optional metadata), random history of "
    "in-place operations, written with random storage options and read back; "
    "non-trivial = a distinct object/option combination that reached the comparison"
)
REQUIRED = ["uvh5_written", "uvh5_read", "int_dtype", "fastmeta_compared", "flexpol"]

IGN = {"filename", "history", "scan_number_array", "blt_order", "blts_are_rectangular",
       "time_axis_faster_than_bls", "nsample_array", "data_array"}


def _random_uv(ctx):
    rng = ctx.rng
    kw = {}
    if rng.integers(6) == 0:
        kw["antnums"] = np.sort(rng.choice(100000, 5, replace=False))
    uv = gen.make_uvdata(rng, **kw)
    if rng.integers(3) == 0:
        uv.eq_coeffs = rng.uniform(0.5, 2, (uv.telescope.Nants, uv.Nfreqs))
        uv.eq_coeffs_convention = gen.pick(rng, ["multiply", "divide"])
    if rng.integers(3) == 0:
        uv.dut1 = float(rng.uniform(-1, 1))
        uv.earth_omega = 360.985
        uv.gst0 = float(rng.uniform(0, 360))
        uv.rdate = "2015-03-01"
        uv.timesys = "UTC"
        uv.uvplane_reference_time = int(rng.integers(5))
    if rng.integers(4) == 0:
        uv.extra_keywords = dict(uv.extra_keywords or {})
        uv.extra_keywords["nothing"] = None
        uv.extra_keywords["alist"] = np.arange(4) * 1.5
        uv.extra_keywords["a_rather_long_key"] = "x" * 100
    return uv


def _options(ctx, uv):
    rng = ctx.rng
    opt = {}
    if rng.integers(2):
        opt["data_compression"] = gen.pick(rng, ["lzf", "gzip", "bitshuffle", None])
    if rng.integers(3) == 0:
        opt["flags_compression"] = gen.pick(rng, ["gzip", None])
        opt["nsample_compression"] = gen.pick(rng, ["gzip", None])
    if rng.integers(4) == 0:
        opt["chunks"] = tuple(int(rng.integers(1, n + 1)) for n in uv.data_array.shape)
    return opt


def _compare(ctx, before, u2, fn, *, dtype=None, what="uvh5 round trip", data=None):
    ign = set(IGN)
    after = canon.snap(u2)
    d = canon.diff(before, after, ignore=ign, tols={"time_array": 0, "uvw_array": 0, "freq_array": 0,
                   "channel_width": 0, "integration_time": 0, "lst_array": 0})
    ctx.check(not d, lambda: f"{what}: {d[:5]}")
    want = before["data_array"] if data is None else data
    r = canon.valdiff(want.astype(dtype) if dtype else want, after["data_array"], path="data_array")
    ctx.check(r is None, lambda: f"{what}: {r}")
    if dtype is not None:
        ctx.check(after["data_array"].dtype == dtype, f"{what}: dtype {after['data_array'].dtype} != {dtype}")
    r = canon.valdiff(before["nsample_array"].astype(np.float32), after["nsample_array"], path="nsample_array")
    ctx.check(r is None, lambda: f"{what}: {r}")
    for a in ("blt_order", "blts_are_rectangular", "time_axis_faster_than_bls"):
        if before[a] is not None and after[a] is not None:
            r = canon.valdiff(np.asarray(before[a]), np.asarray(after[a]), path=a)
            ctx.check(r is None, lambda: f"{what}: {r}")
    common.hist_kept(ctx, before["history"], after["history"], what)
    common.sane(ctx, u2, what, claims=False)


def s_roundtrip(ctx):
    rng = ctx.rng
    uv = _random_uv(ctx)
    common.random_ops(ctx, uv)
    if rng.integers(3) == 0:
        uv.set_rectangularity(force=True)
    if rng.integers(4) == 0:
        uv.nsample_array = uv.nsample_array.astype(np.float64)
    opt = _options(ctx, uv)
    ctx.case(common.describe_uv(uv), opt)
    before = canon.snap(uv)
    fn = ctx.path("a.uvh5")
    if rng.integers(3) == 0:
        # overwrite an older, different file
        gen.make_uvdata(rng).write_uvh5(fn)
        opt["clobber"] = True
    uv.write_uvh5(fn, **opt)
    ctx.ev("uvh5_written")
    d = canon.diff(before, uv, exact=True)
    ctx.check(not d, lambda: f"write_uvh5 changed the object in memory: {d[:4]}")
    u2 = UVData()
    dt = before["data_array"].dtype
    if rng.integers(2):
        u2.read(fn)
    else:
        u2.read_uvh5(fn)
    ctx.ev("uvh5_read")
    _compare(ctx, before, u2, fn, dtype=dt)
    # a second generation file must be identical to the first
    fn2 = ctx.path("b.uvh5")
    u2.write_uvh5(fn2)
    u3 = UVData.from_file(fn2)
    _compare(ctx, before, u3, fn2, dtype=dt, what="second generation uvh5 round trip")


def s_intdtype(ctx):
    rng = ctx.rng
    uv = _random_uv(ctx)
    common.random_ops(ctx, uv, allow=("select", "reorder", "freq", "pol", "conj"))
    # integer-valued visibilities, representable in the chosen storage type
    size = gen.pick(rng, ["<i4", "<i2", "<i8"])
    lim = 30000
    re = rng.integers(-lim, lim, uv.data_array.shape)
    im = rng.integers(-lim, lim, uv.data_array.shape)
    im[uv.ant_1_array == uv.ant_2_array] = 0
    uv.data_array = (re + 1j * im).astype(uv.data_array.dtype)
    dt = np.dtype([("r", size), ("i", size)])
    ctx.case("int", size, common.describe_uv(uv))
    before = canon.snap(uv)
    fn = ctx.path("a.uvh5")
    uv.write_uvh5(fn, data_write_dtype=dt, **_options(ctx, uv))
    ctx.ev("uvh5_written")
    ctx.ev("int_dtype")
    with h5py.File(fn, "r") as f:
        ctx.check(f["Data/visdata"].dtype == dt, "on-disk type is not the requested one")
    odt = gen.pick(rng, [np.complex64, np.complex128])
    u2 = UVData.from_file(fn, data_array_dtype=odt)
    ctx.ev("uvh5_read")
    _compare(ctx, before, u2, fn, dtype=np.dtype(odt), what="integer uvh5 round trip")


def s_fastmeta(ctx):
    uv = _random_uv(ctx)
    common.random_ops(ctx, uv)
    fn = ctx.path("a.uvh5")
    uv.write_uvh5(fn)
    ctx.ev("uvh5_written")
    ctx.case("meta", common.describe_uv(uv))
    m = FastUVH5Meta(fn)
    if True:
        for a in ("time_array", "ant_1_array", "ant_2_array", "freq_array", "channel_width",
                  "integration_time", "lst_array", "uvw_array", "polarization_array",
                  "spw_array", "flex_spw_id_array", "phase_center_app_ra",
                  "phase_center_app_dec", "phase_center_frame_pa", "phase_center_id_array",
                  "Nblts", "Nbls", "Ntimes", "Nfreqs", "Npols", "Nspws", "Nants_data",
                  "vis_units", "eq_coeffs", "dut1", "gst0", "earth_omega"):
            want = getattr(uv, a)
            if want is None:
                continue
            got = getattr(m, a)
            r = canon.valdiff(want, got, path=a)
            ctx.check(r is None, lambda: f"fast metadata: {r}")
        ctx.check(
            set(map(tuple, np.array(m.antpairs).tolist()))
            == set(zip(uv.ant_1_array.tolist(), uv.ant_2_array.tolist())),
            "fast metadata: antpairs differ from those in the file",
        )
        r = canon.valdiff(np.unique(uv.time_array), np.sort(m.times), path="times")
        ctx.check(r is None, lambda: f"fast metadata: {r}")
        r = canon.valdiff(uv.baseline_array, m.baseline_array, path="baseline_array")
        ctx.check(r is None, lambda: f"fast metadata: {r}")
        ctx.check(m.has_key((int(uv.ant_1_array[0]), int(uv.ant_2_array[0]))), "has_key is false for a baseline in the file")
        r = canon.valdiff(np.asarray(uv.telescope.antenna_positions), np.asarray(m.antenna_positions), path="antenna_positions")
        ctx.check(r is None, lambda: f"fast metadata: {r}")
        lla = np.array([uv.telescope.location.lat.deg, uv.telescope.location.lon.deg, uv.telescope.location.height.to_value("m")])
        r = canon.valdiff(lla, np.array([np.degrees(m.telescope_location_lat_lon_alt[0]), np.degrees(m.telescope_location_lat_lon_alt[1]), m.telescope_location_lat_lon_alt[2]]), atol=1e-7, path="telescope lat/lon/alt")
        ctx.check(r is None, lambda: f"fast metadata: {r}")
        if m.blts_are_rectangular:
            u = uv.copy()
            u.blt_order = None
            u.blts_are_rectangular = True
            u.time_axis_faster_than_bls = bool(m.time_axis_faster_than_bls)
            p = canon.blt_claims(u)
            ctx.check(not p, f"fast metadata: {p}")
        u2 = m.to_uvdata()
    before = canon.snap(uv)
    d = canon.diff(before, u2, ignore=IGN | {"flag_array", "filename"},
                   tols={"uvw_array": 0, "freq_array": 0})
    ctx.check(not d, lambda: f"metadata-only object from the file: {d[:5]}")
    u3 = UVData()
    u3.read(fn, read_data=False)
    d = canon.diff(before, u3, ignore=IGN | {"flag_array"})
    ctx.check(not d, lambda: f"read(read_data=False): {d[:5]}")
    ctx.check(u3.metadata_only and u3.data_array is None, "read_data=False loaded data")
    ctx.ev("fastmeta_compared")


def s_flexpol(ctx):
    rng = ctx.rng
    uv = gen.make_uvdata(rng, pols=gen.make_pols(rng, full=True, kind="lin"))
    uv.convert_to_flex_pol()
    before = canon.snap(uv)
    ctx.case("flexpol", common.describe_uv(uv))
    fn = ctx.path("a.uvh5")
    uv.write_uvh5(fn)
    u2 = UVData.from_file(fn, data_array_dtype=uv.data_array.dtype.type, remove_flex_pol=False)
    _compare(ctx, before, u2, fn, dtype=uv.data_array.dtype, what="flex-pol uvh5 round trip")
    ctx.ev("flexpol")


def s_older(ctx):
    """Files without the header items later versions added, or with the array shapes of earlier ones."""
    rng = ctx.rng
    style = gen.pick(rng, ["any", "any", "one_spw"])
    uv = gen.make_uvdata(rng, nphase=1, even_freq=True, nspw=1) if style == "one_spw" else _random_uv(ctx)
    if style == "one_spw":
        uv.channel_width = np.full(uv.Nfreqs, float(uv.channel_width[0]))
        uv.spw_array = np.array([0])
        uv.flex_spw_id_array = np.zeros(uv.Nfreqs, int)
    common.random_ops(ctx, uv, allow=("select", "reorder", "conj"))
    if rng.integers(2):
        uv.set_rectangularity(force=True)
    if rng.integers(4) == 0:
        uv.vis_units, uv.pol_convention = "uncalib", None
    fn = ctx.path("a.uvh5")
    uv.write_uvh5(fn)
    before = canon.snap(uv)
    drop = []
    ign = set(IGN) | {"filename"}
    with h5py.File(fn, "r+") as f:
        h = f["Header"]
        for k in ("blt_order", "blts_are_rectangular", "lst_array", "vis_units_case", "nbls", "shapes", "pc"):
            if rng.integers(2):
                continue
            if k in h:
                drop.append(k)
                del h[k]
                if k == "blts_are_rectangular":
                    del h["time_axis_faster_than_bls"]
            elif k == "vis_units_case" and uv.vis_units == "uncalib":
                drop.append(k)
                del h["vis_units"]
                h["vis_units"] = np.bytes_("UNCALIB")
            elif k == "nbls":
                h["Nbls"][()] = uv.Nblts + 3
                drop.append(k)
            elif k == "shapes" and style == "one_spw":
                drop.append(k)
                fq, cw = h["freq_array"][()], h["channel_width"][()]
                del h["freq_array"], h["channel_width"]
                h["freq_array"] = fq[None]
                h["channel_width"] = float(np.ravel(cw)[0])
                if "flex_spw_id_array" in h:
                    del h["flex_spw_id_array"]
                for d in ("visdata", "flags", "nsamples"):
                    v = f["Data/" + d]
                    x, dt = v[()], v.dtype
                    del f["Data/" + d]
                    f["Data"].create_dataset(d, data=x[:, None], dtype=dt)
            elif k == "pc" and style == "one_spw":
                cat = list(uv.phase_center_catalog.values())[0]
                if cat["cat_type"] == "unprojected" or (cat["cat_type"] == "sidereal" and cat["cat_frame"] in ("icrs", "fk5") and not cat.get("cat_pm_ra")):
                    drop.append(k)
                    for x in ("phase_center_catalog", "phase_center_id_array", "Nphase"):
                        del h[x]
                    for x in ("phase_center_app_ra", "phase_center_app_dec", "phase_center_frame_pa"):
                        del h[x]
                    if cat["cat_type"] == "sidereal":
                        h["phase_type"] = np.bytes_("phased")
                        h["phase_center_ra"], h["phase_center_dec"] = cat["cat_lon"], cat["cat_lat"]
                        h["phase_center_frame"] = np.bytes_(cat["cat_frame"])
                        h["phase_center_epoch"] = 2000.0 if cat.get("cat_epoch") is None else cat["cat_epoch"]
                    else:
                        h["phase_type"] = np.bytes_("drift")
                    h["object_name"] = np.bytes_(cat["cat_name"])
    ctx.case("older", drop, common.describe_uv(uv))
    for d in drop:
        ctx.ev("older_" + d)
    opt = {}
    if rng.integers(2) or "nbls" in drop:
        opt["recompute_nbls"] = True
    # what a caller may tell about the layout, truthfully
    u = uv.copy()
    rect = u.blts_are_rectangular
    tfirst = u.time_axis_faster_than_bls
    u.set_rectangularity(force=True)
    n = len({(a, b) for a, b in zip(u.ant_1_array.tolist(), u.ant_2_array.tolist())})
    nb = n  # a rectangle is over antenna pairs
    truly = {"rect": bool(u.blts_are_rectangular), "tf": bool(u.time_axis_faster_than_bls)}
    if rng.integers(3) == 0:
        opt["blts_are_rectangular"] = truly["rect"]
        if truly["rect"] and rng.integers(2):
            opt["time_axis_faster_than_bls"] = truly["tf"]
    if rng.integers(3) == 0:
        opt["blt_order"] = "determine"
    ctx.log("options", opt)
    if "pc" not in drop:
        m = FastUVH5Meta(fn, **opt)
        pairs = list(zip(uv.ant_1_array.tolist(), uv.ant_2_array.tolist()))
        names = ["Nbls", "antpairs", "times", "lsts", "lst_array", "unique_ants", "unique_baseline_array", "baseline_array", "pols", "has_key", "order",
                 "channel_width", "vis_units", "time_axis"]
        for k in rng.permutation(names):
            if k == "Nbls":
                ctx.check(m.Nbls == uv.Nbls, lambda: f"Nbls {m.Nbls}, the file has {uv.Nbls} baselines ({drop}, {opt})")
            elif k == "antpairs":
                ap = [tuple(int(y) for y in x) for x in m.antpairs]
                ctx.check(len(ap) == len(set(ap)) and set(ap) == set(pairs), lambda: f"antpairs {ap[:5]} of {len(set(pairs))} pairs ({drop}, {opt})")
            elif k == "times":
                ctx.check(np.array_equal(np.sort(m.times), np.unique(uv.time_array)), lambda: f"times {m.times} ({drop}, {opt})")
            elif k == "lsts":
                w = np.unique(uv.lst_array)
                g = np.unique(np.asarray(m.lsts))
                ctx.check(g.size >= 1 and all(np.min(np.abs((w - x + np.pi) % (2 * np.pi) - np.pi)) < 1e-7 for x in g)
                          and all(np.min(np.abs((g - x + np.pi) % (2 * np.pi) - np.pi)) < 1e-7 for x in w), lambda: f"lsts {g}, in the file {w} ({drop}, {opt})")
            elif k == "lst_array":
                ctx.check(np.all(np.abs((np.asarray(m.lst_array) - uv.lst_array + np.pi) % (2 * np.pi) - np.pi) < 1e-7), f"lst_array differs ({drop})")
            elif k == "unique_ants":
                ctx.check({int(x) for x in m.unique_ants} == set(uv.ant_1_array.tolist()) | set(uv.ant_2_array.tolist()), lambda: f"unique_ants {m.unique_ants} ({drop}, {opt})")
            elif k == "unique_baseline_array":
                ctx.check(set(np.asarray(m.unique_baseline_array).tolist()) == set(uv.baseline_array.tolist()), f"unique_baseline_array ({drop}, {opt})")
            elif k == "baseline_array":
                ctx.check(np.array_equal(m.baseline_array, uv.baseline_array), "baseline_array")
            elif k == "pols":
                ctx.check([str(x) for x in m.pols] == [str(x) for x in uv.get_pols()], lambda: f"pols {m.pols}, of the object {uv.get_pols()}") if uv.flex_spw_polarization_array is None else None
            elif k == "has_key":
                i = int(rng.integers(uv.Nblts))
                a, b = pairs[i]
                ctx.check(m.has_key((a, b)) and m.has_key((b, a)), "has_key is false for a baseline in the file")
                ctx.check(m.has_key((a, b, m.pols[0])) and not m.has_key((a, 99991)), "has_key wrong")
            elif k == "order":
                o = m.blt_order
                if o is not None:
                    x = uv.copy()
                    x.blt_order = tuple(o)
                    x.blts_are_rectangular = x.time_axis_faster_than_bls = None
                    p = canon.blt_claims(x)
                    ctx.check(not p, lambda: f"blt_order {o}: {p} ({drop}, {opt})")
                    ctx.ev("order_claimed")
            elif k == "channel_width":
                ctx.check(np.allclose(np.asarray(m.channel_width), uv.channel_width, rtol=0, atol=0), "channel_width")
            elif k == "vis_units":
                ctx.check(m.vis_units == uv.vis_units, lambda: f"vis_units {m.vis_units}, written {uv.vis_units} ({drop})")
            elif k == "time_axis":
                if m.blts_are_rectangular:
                    x = uv.copy()
                    x.blt_order = None
                    x.blts_are_rectangular, x.time_axis_faster_than_bls = True, bool(m.time_axis_faster_than_bls)
                    p = canon.blt_claims(x)
                    ctx.check(not p, lambda: f"rectangularity: {p} ({drop}, {opt})")
                    ctx.ev("rect_claimed")
                else:
                    ctx.check(not truly["rect"], lambda: f"not rectangular, but it is ({drop}, {opt})")
        m2 = FastUVH5Meta(fn, **opt)
        ctx.check(m == m2 and hash(m) == hash(m2), "two views of one file differ")
        import pickle

        m3 = pickle.loads(pickle.dumps(m))
        ctx.check(m3 == m and np.array_equal(m3.time_array, uv.time_array), "a pickled view differs")
    u2 = UVData()
    for k in ("blts_are_rectangular", "time_axis_faster_than_bls"):
        opt.pop(k, None)
    u2.read(fn, **opt, data_array_dtype=uv.data_array.dtype.type)
    for k in drop:
        if k in ("blt_order", "blts_are_rectangular"):
            ign |= {"blt_order", "blts_are_rectangular", "time_axis_faster_than_bls"}
        if k == "pc":
            ign |= {"phase_center_catalog", "phase_center_id_array"}
    if opt.get("blt_order"):
        ign |= {"blt_order", "blts_are_rectangular", "time_axis_faster_than_bls"}
    tols = {"lst_array": 1e-7} if "lst_array" in drop else {}
    if "pc" in drop:
        tols.update(phase_center_app_ra=1e-7, phase_center_app_dec=1e-7, phase_center_frame_pa=1e-5)
        c, c0 = list(u2.phase_center_catalog.values())[0], list(before["phase_center_catalog"].values())[0]
        ctx.check(c["cat_name"] == c0["cat_name"] and c["cat_type"] == c0["cat_type"], lambda: f"phase center {c}, written {c0}")
        if c0["cat_type"] == "sidereal":
            ctx.check(np.allclose([c["cat_lon"], c["cat_lat"]], [c0["cat_lon"], c0["cat_lat"]], rtol=0, atol=1e-12) and c["cat_frame"] == c0["cat_frame"],
                      lambda: f"phase center {c}, written {c0}")
    d = canon.diff(before, u2, ignore=ign, tols=tols)
    ctx.check(not d, lambda: f"older uvh5 layout ({drop}): {d[:5]}")
    common.sane(ctx, u2, f"older uvh5 layout ({drop}, {opt})")


SCENARIOS = [
    Scenario("older", s_older, 250, 3000),
    Scenario("roundtrip", s_roundtrip, 800, 8000),
    Scenario("intdtype", s_intdtype, 250, 2500),
    Scenario("fastmeta", s_fastmeta, 250, 2500),
    Scenario("flexpol", s_flexpol, 150, 1200),
]
