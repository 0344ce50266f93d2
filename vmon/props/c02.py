"""C02 UVFITS round trip."""
import numpy as np

from pyuvdata import UVData
from vmon import canon, gen
from vmon.core import Scenario
from vmon.props import common

RULE = (
    "random valid UVData objects the format can hold (evenly spaced channels, equal "
    "windows, sidereal phase centers, evenly spaced pols), random in-place history, "
    "written (LST stored or not, single/double precision, MIRIAD numbering or not) and "
    "read back; non-trivial = distinct object that reached the comparison"
)
REQUIRED = ["uvfits_written", "uvfits_read", "refused_unsupported", "multi_spw", "multi_phase",
            "no_lst", "single", "double", "miriad_numbering", "negative_width", "unsorted_pols"]


def even_pols(rng):
    return np.array(gen.pick(rng, [
        [-5], [-6], [-7], [-5, -6], [-5, -6, -7, -8], [-8, -7, -6, -5], [-5, -7, -6, -8],
        [-7, -8], [-6, -8], [-5, -7], [-1, -2], [-1, -2, -3, -4], [-2, -4, -3, -1], [1],
        [1, 2, 3, 4], [4, 2, 1, 3], [1, 3], [-6, -7, -8], [-8, -5, -7, -6],
    ]))


def fits_uv(ctx, *, double=None, nphase=None, nspw=None, **kw):
    rng = ctx.rng
    double = bool(rng.integers(2)) if double is None else double
    if rng.integers(5) == 0:
        kw["antnums"] = np.sort(rng.choice(gen.pick(rng, [255, 400, 2000]), 5, replace=False))
    uv = gen.make_uvdata(
        rng, even_freq=True, chans=int(rng.integers(1, 6)), kinds=["sidereal"],
        pols=kw.pop("pols", even_pols(rng)), nspw=nspw, nphase=nphase,
        dtype=np.complex128 if double else np.complex64, **kw,
    )
    return uv


def compare(ctx, led, u2, what, double, fmt_tols=None, ignore=()):
    tols = dict(canon.DEFAULT_TOLS)
    tols.update(fmt_tols or {})
    after = canon.ledger(u2, spw_ids=False, catalog=False)
    d = []
    for k in sorted(set(led) | set(after)):
        if k in ignore:
            continue
        a, b = led.get(k), after.get(k)
        r = canon.valdiff(a, b, tols.get(k, 0.0), 0.0, k in canon.ANGLES, k)
        if r:
            d.append(r)
    ctx.check(not d, lambda: f"{what}: {d[:6]}")


def tols_for(double, uv):
    t = {
        "time_array": 2e-9 if double else 1e-3 / 86400,
        # without a stored LST the value is recomputed
        "lst_array": 1e-8,
        "uvw_array": 1e-9 * 1e3 if double else 1e-3,
        "integration_time": 1e-9 if double else 1e-5,
        "freq_array": 1e-3, "channel_width": 1e-3,
        "phase_center_app_ra": 1e-8, "phase_center_app_dec": 1e-8, "phase_center_frame_pa": 5e-8,
        "telescope.antenna_positions": 1e-6, "telescope.location": 1e-5,
        "telescope.antenna_diameters": 1e-5,
    }
    if len({c["cat_frame"] for c in uv.phase_center_catalog.values()}) > 1:
        # the format has one frame: position angles refer to the unified one
        t["phase_center_frame_pa"] = 5e-6
    return t


def compare_catalog(ctx, uv_before, u2, what):
    """Catalog entries of the records, by direction (frame may be unified)."""
    from astropy.coordinates import FK4, FK5, ICRS, SkyCoord
    from astropy.time import Time

    def entries(u):
        return {c["cat_name"]: c for c in u.values()}

    a, b = entries(uv_before["phase_center_catalog"]), entries(u2.phase_center_catalog)
    ctx.check(set(a) == set(b), f"{what}: catalog names {sorted(a)} -> {sorted(b)}")

    def sky(c):
        fr = c["cat_frame"]
        ep = c.get("cat_epoch") or 2000.0
        if fr == "icrs":
            f = ICRS()
        elif fr == "fk5":
            f = FK5(equinox=Time(ep, format="jyear"))
        else:
            f = FK4(equinox=Time(ep, format="byear"))
        return SkyCoord(c["cat_lon"], c["cat_lat"], unit="rad", frame=f).icrs

    for n in a:
        sep = sky(a[n]).separation(sky(b[n])).rad
        ctx.check(sep < 1e-9, f"{what}: phase center {n} moved by {sep:.3g} rad: {a[n]} -> {b[n]}")
        ctx.check(b[n]["cat_type"] == a[n]["cat_type"], f"{what}: cat_type of {n} changed")


def s_roundtrip(ctx):
    rng = ctx.rng
    uv = fits_uv(ctx)
    common.random_ops(ctx, uv, allow=("select", "reorder", "conj", "freq", "pol", "phase"))
    if rng.integers(3) == 0:
        uv.dut1 = round(float(rng.uniform(-1, 1)), 6)
        uv.earth_omega = 360.985
        uv.gst0 = round(float(rng.uniform(0, 360)), 6)
        uv.rdate = "2015-03-01"
        uv.timesys = "UTC"
    double = uv.data_array.dtype == np.complex128
    ctx.case(common.describe_uv(uv))
    ctx.ev("double" if double else "single")
    if uv.Nspws > 1:
        ctx.ev("multi_spw")
    if uv.Nphase > 1:
        ctx.ev("multi_phase")
    if np.any(np.diff(uv.freq_array) < 0):
        ctx.ev("negative_width")
    if np.any(np.diff(np.abs(uv.polarization_array)) < 0):
        ctx.ev("unsorted_pols")
    before = canon.snap(uv)
    led = canon.ledger(uv, spw_ids=False, catalog=False)
    opt = {}
    if rng.integers(2):
        opt["write_lst"] = bool(rng.integers(2))
        if not opt["write_lst"]:
            ctx.ev("no_lst")
    mir = rng.integers(5) == 0 and int(np.max(uv.telescope.antenna_numbers)) < 2040
    if mir:
        opt["use_miriad_convention"] = True
        ctx.ev("miriad_numbering")
    ctx.case(opt)
    fn = ctx.path("a.uvfits")
    uv.write_uvfits(fn, **opt)
    ctx.ev("uvfits_written")
    d = canon.diff(before, uv, exact=True)
    ctx.check(not d, lambda: f"write_uvfits changed the object in memory: {d[:4]}")
    u2 = UVData()
    if rng.integers(2):
        u2.read(fn)
    else:
        u2.read_uvfits(fn)
    ctx.ev("uvfits_read")
    if mir and int(np.min(uv.telescope.antenna_numbers)) == 0:
        for a in ("ant_1_array", "ant_2_array", "telescope.antenna_numbers"):
            led[a] = np.asarray(led[a]) + 1
        led.pop("baseline_array")
        ign = ("baseline_array",)
    else:
        ign = ()
    compare(ctx, led, u2, "uvfits round trip", double, tols_for(double, uv), ign)
    compare_catalog(ctx, before, u2, "uvfits round trip")
    # the record order itself is kept
    r = canon.valdiff(before["time_array"], u2.time_array, atol=1e-3 / 86400, path="time_array")
    ctx.check(r is None, lambda: f"uvfits round trip record order: {r}")
    ek = {k[:8].upper(): v for k, v in before["extra_keywords"].items()}
    r = canon.valdiff(ek, u2.extra_keywords, path="extra_keywords")
    ctx.check(r is None, lambda: f"uvfits round trip: {r}")
    for a in ("dut1", "earth_omega", "gst0", "rdate", "timesys"):
        if before[a] is not None:
            r = canon.valdiff(before[a], getattr(u2, a), atol=1e-9, path=a)
            ctx.check(r is None, lambda: f"uvfits round trip: {r}")
    for a in ("history",):
        flat = "".join(before[a].split())
        ctx.check(flat in "".join(u2.history.split()), f"history lost: {before[a]!r} vs {u2.history!r}")
    common.sane(ctx, u2, "uvfits round trip", claims=False)
    # second generation
    fn2 = ctx.path("b.uvfits")
    u2.write_uvfits(fn2)
    u3 = UVData.from_file(fn2)
    compare(ctx, canon.ledger(u2, spw_ids=False, catalog=False), u3, "second generation uvfits", double,
            {k: 2 * v for k, v in tols_for(double, uv).items()})


def s_nsample0(ctx):
    """Flags and weights share one column: sign and zero handling."""
    rng = ctx.rng
    uv = fits_uv(ctx)
    z = rng.random(uv.nsample_array.shape) < 0.3
    uv.nsample_array[z] = 0
    if rng.integers(2):
        uv.flag_array[z] = True
    ctx.case("nsample0", common.describe_uv(uv))
    led = canon.ledger(uv, spw_ids=False, catalog=False)
    led["flag_array"] = led["flag_array"] | (led["nsample_array"] == 0)
    fn = ctx.path("a.uvfits")
    uv.write_uvfits(fn)
    u2 = UVData.from_file(fn)
    ctx.ev("uvfits_written")
    ctx.ev("uvfits_read")
    double = uv.data_array.dtype == np.complex128
    compare(ctx, led, u2, "uvfits flags/weights", double, tols_for(double, uv))


def s_refuse(ctx):
    """Anything the format cannot hold is refused, not silently altered."""
    rng = ctx.rng
    kind = gen.pick(rng, ["uneven", "width", "pols", "drift", "sizes", "timesys", "kw", "interleave"])
    uv = fits_uv(ctx, nspw=1 if kind not in ("sizes", "interleave") else 2)
    fn = ctx.path("a.uvfits")
    if kind == "uneven":
        f = np.array([1e8, 1.01e8, 1.05e8, 1.06e8])
        uv = gen.make_uvdata(rng, nspw=1, chans=4, even_freq=True, kinds=["sidereal"], pols=[-5])
        uv.freq_array = f
        uv.channel_width[:] = 1e6
    elif kind == "width":
        uv = gen.make_uvdata(rng, nspw=1, chans=4, even_freq=True, kinds=["sidereal"], pols=[-5])
        uv.channel_width = uv.channel_width * np.array([1, 1, 2, 1.0])
    elif kind == "pols":
        uv = gen.make_uvdata(rng, nspw=1, chans=4, even_freq=True, kinds=["sidereal"], pols=[-5, -6, -8])
    elif kind == "drift":
        uv = gen.make_uvdata(rng, nspw=1, chans=4, even_freq=True, kinds=["unprojected"], pols=[-5])
    elif kind == "sizes":
        uv = gen.make_uvdata(rng, nspw=2, chans=4, even_freq=True, kinds=["sidereal"], pols=[-5])
        uv.select(freq_chans=[0, 1, 2, 4, 5, 6, 7])
    elif kind == "interleave":
        uv = gen.make_uvdata(rng, nspw=2, chans=4, even_freq=True, kinds=["sidereal"], pols=[-5])
        uv._select_freq_test = None
        idx = np.array([0, 4, 1, 5, 2, 6, 3, 7])
        uv.freq_array = uv.freq_array[idx]
        uv.channel_width = uv.channel_width[idx]
        uv.flex_spw_id_array = uv.flex_spw_id_array[idx]
        uv.data_array = uv.data_array[:, idx]
        uv.flag_array = uv.flag_array[:, idx]
        uv.nsample_array = uv.nsample_array[:, idx]
    elif kind == "timesys":
        uv.timesys = "TAI"
    elif kind == "kw":
        uv.extra_keywords = {"LST1": [1, 2]}
    ctx.case("refuse", kind, common.describe_uv(uv))
    before = canon.snap(uv)
    ctx.raises(Exception, lambda: uv.write_uvfits(fn), f"write_uvfits of unsupported data ({kind})")
    d = canon.diff(before, uv, exact=True)
    ctx.check(not d, lambda: f"refused write changed the object: {d[:4]}")
    ctx.ev("refused_unsupported")
    if kind == "drift":
        uv.write_uvfits(fn, force_phase=True)
        u2 = UVData.from_file(fn)
        ctx.check(all(c["cat_type"] == "sidereal" for c in u2.phase_center_catalog.values()), "force_phase left drift data")


SCENARIOS = [
    Scenario("roundtrip", s_roundtrip, 420, 5000),
    Scenario("nsample0", s_nsample0, 120, 1000),
    Scenario("refuse", s_refuse, 120, 600),
]
