"""C04 Measurement Set round trip."""
import numpy as np

from pyuvdata import UVData
from vmon import canon, gen
from vmon.core import Scenario, Skip
from vmon.props import common
from vmon.props.c02 import compare_catalog

RULE = (
    "random valid UVData objects, random in-place history, written as a measurement set "
    "through casacore and read back; non-trivial = distinct object that reached the comparison"
)
REQUIRED = ["single_chan_ignored", "single_chan_one_left", "ms_written", "ms_read", "multi_spw", "multi_phase", "flex_pol"]
CASE_TIMEOUT = 300

TOLS = {
    "time_array": 1e-9, "lst_array": 1e-8, "uvw_array": 1e-9, "integration_time": 1e-9,
    "freq_array": 1e-6, "channel_width": 1e-6, "telescope.location": 1e-5,
    "telescope.antenna_positions": 1e-5, "phase_center_app_ra": 1e-8,
    "phase_center_app_dec": 1e-8, "phase_center_frame_pa": 5e-8,
}


def s_roundtrip(ctx):
    rng = ctx.rng
    kw = {}
    if rng.integers(4) == 0:
        kw["antnums"] = np.sort(rng.choice(gen.pick(rng, [256, 600, 3000]), 5, replace=False))
    kw["kinds"] = gen.pick(rng, [["sidereal"]])
    kw["pols"] = gen.make_pols(rng, kind=gen.pick(rng, ["lin", "circ"]))
    uv = gen.make_uvdata(rng, **kw)
    common.random_ops(ctx, uv)
    ctx.case(common.describe_uv(uv))
    if uv.Nspws > 1:
        ctx.ev("multi_spw")
    if uv.Nphase > 1:
        ctx.ev("multi_phase")
    before = canon.snap(uv)
    led = canon.oriented(uv, spw_ids=True, catalog=False)
    led["data_array"] = led["data_array"].astype(np.complex64)
    fn = ctx.path("a.ms")
    opt = {}
    if rng.integers(4) == 0:
        # store the other conjugation convention; the reader does not know about it
        opt["flip_conj"] = True
        ctx.ev("flip_conj")
    uv.write_ms(fn, **opt)
    ctx.ev("ms_written")
    d = canon.diff(before, uv, exact=True, ignore={"scan_number_array"})
    ctx.check(not d, lambda: f"write_ms changed the object in memory: {d[:4]}")
    u2 = UVData()
    single = any(np.sum(uv.flex_spw_id_array == s) == 1 for s in uv.spw_array)
    ropt = {"ignore_single_chan": False} if single or rng.integers(2) else {}
    if rng.integers(2):
        u2.read(fn, **ropt)
    else:
        u2.read_ms(fn, **ropt)
    ctx.ev("ms_read")
    if opt.get("flip_conj") and np.all(u2.ant_1_array == u2.ant_2_array):
        # not recognised as flipped on read (nothing but autos): undo it here
        u2.uvw_array = -u2.uvw_array
        u2.data_array = np.conj(u2.data_array)
    got = canon.oriented(u2, spw_ids=True, catalog=False)
    got["data_array"] = got["data_array"].astype(np.complex64)
    d = canon.dictdiff(led, got, tols=TOLS, ignore={"scan_number_array", "telescope.instrument"})
    ctx.check(not d, lambda: f"ms round trip: {d[:6]}")
    if kw["kinds"] == ["sidereal"]:
        compare_catalog(ctx, before, u2, "ms round trip")
    common.sane(ctx, u2, "ms round trip", claims=False)
    for k in ("DATA_COL", "observer"):
        u2.extra_keywords.pop(k, None)
    r = canon.valdiff(before["extra_keywords"], u2.extra_keywords, path="extra_keywords")
    ctx.check(r is None, lambda: f"ms round trip: {r}")


def s_flexpol(ctx):
    rng = ctx.rng
    uv = gen.make_uvdata(rng, kinds=["sidereal"], pols=gen.make_pols(rng, full=True, kind="lin"),
                         orient=False)
    led = canon.ledger(uv, spw_ids=False, catalog=False)
    uv.convert_to_flex_pol()
    ctx.case("flexpol", common.describe_uv(uv))
    fn = ctx.path("a.ms")
    uv.write_ms(fn)
    u2 = UVData()
    u2.read_ms(fn, allow_flex_pol=True, ignore_single_chan=False)
    ctx.check(u2.flex_spw_polarization_array is not None, "flex-pol lost")
    u2.remove_flex_pol()
    led["data_array"] = led["data_array"].astype(np.complex64)
    got = canon.ledger(u2, spw_ids=False, catalog=False)
    got["data_array"] = got["data_array"].astype(np.complex64)
    d = canon.dictdiff(led, got, tols=TOLS, ignore={"scan_number_array", "telescope.instrument"})
    ctx.check(not d, lambda: f"flex-pol ms round trip: {d[:6]}")
    ctx.ev("flex_pol")


def s_single(ctx):
    """windows of one channel are left out on read unless asked for; the others are read whole"""
    rng = ctx.rng
    uv = gen.make_uvdata(rng, kinds=["sidereal"], pols=gen.make_pols(rng, kind="lin"), nspw=int(rng.integers(2, 4)), orient=False)
    n = {int(s): int(np.sum(uv.flex_spw_id_array == s)) for s in uv.spw_array}
    for s in list(n)[: int(rng.integers(1, len(n)))]:
        # cut this window down to one channel
        k = np.nonzero(uv.flex_spw_id_array == s)[0]
        keep = np.setdiff1d(np.arange(uv.Nfreqs), np.delete(k, int(rng.integers(len(k)))))
        common.quiet(uv.select, freq_chans=keep)
    n = {int(s): int(np.sum(uv.flex_spw_id_array == s)) for s in uv.spw_array}
    big = [s for s in n if n[s] > 1]
    if not big:
        raise Skip("only single channels")
    ctx.case("single", str(n), common.describe_uv(uv))
    fn = ctx.path("a.ms")
    uv.write_ms(fn)
    u2 = UVData()
    u2.read_ms(fn)
    common.quiet(uv.select, freq_chans=np.nonzero(np.isin(uv.flex_spw_id_array, big))[0])
    led, got = canon.oriented(uv, spw_ids=True, catalog=False), canon.oriented(u2, spw_ids=True, catalog=False)
    for l in (led, got):
        l["data_array"] = l["data_array"].astype(np.complex64)
    d = canon.dictdiff(led, got, tols=TOLS, ignore={"scan_number_array", "telescope.instrument", "history"})
    ctx.check(not d, lambda: f"measurement set with single-channel windows {n}: {d[:6]}", "single-chan")
    ctx.ev("single_chan_ignored")
    if len(big) == 1 and len(n) > 1:
        ctx.ev("single_chan_one_left")


SCENARIOS = [Scenario("roundtrip", s_roundtrip, 550, 6000),
             Scenario("flexpol", s_flexpol, 60, 600), Scenario("single", s_single, 80, 800)]
