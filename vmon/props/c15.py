"""C15 Arithmetic and normalisation of visibilities."""
import numpy as np

from vmon import canon, gen
from vmon.core import Scenario
from vmon.props import common

RULE = (
    "random pairs of objects on the same axes (and pairs with one quantity changed) are summed or differenced; random objects with any "
    "subset of autos in any record order are normalised by autos and restored; equalisation coefficients are removed; every sample is "
    "recomputed from the operands; non-trivial = distinct (object, operation, options)"
)
REQUIRED = ["sum", "diff", "inplace", "not_inplace", "refused_mismatch", "override", "different_files", "keywords_merged", "normalize", "normalize_unordered",
            "invert", "restored", "skip_autos", "autos_normalised", "missing_auto", "bad_auto", "cross_pol", "eq_multiply", "eq_divide", "no_auto_refused",
            "missing_pol_refused"]

DATAISH = ("data_array", "history", "extra_keywords", "filename")
AUTO_OF = {-5: (-5, -5), -6: (-6, -6), -7: (-5, -6), -8: (-6, -5), -1: (-1, -1), -2: (-2, -2), -3: (-1, -2), -4: (-2, -1)}


def s_sum(ctx):
    rng = ctx.rng
    a = gen.make_uvdata(rng)
    b = a.copy()
    b.data_array = gen.unique_complex(rng, a.data_array.shape, a.data_array.dtype)
    au = b.ant_1_array == b.ant_2_array
    b.data_array[au] = b.data_array[au].real
    if rng.integers(2):
        b.history = "other history of the second operand"
    if rng.integers(2):
        b.extra_keywords = {"NEW": 5, "FOO": 77}
    if rng.integers(3) == 0:
        a.filename, b.filename = ["one.uvh5"], ["two.uvh5"]
        a._filename.form = b._filename.form = (1,)
        ctx.ev("different_files")
    opts = {}
    op = gen.pick(rng, ["sum", "diff"])
    if rng.integers(2):
        opts["inplace"] = bool(rng.integers(2))
    expect_refusal = False
    r = rng.integers(4)
    if r == 0:
        # one quantity differs
        what = gen.pick(rng, ["flag", "nsample", "time", "freq", "pol", "uvw", "units", "ant", "tel", "conv", "int"])
        if what == "flag":
            b.flag_array = b.flag_array.copy()
            b.flag_array.flat[int(rng.integers(b.flag_array.size))] ^= True
        elif what == "nsample":
            b.nsample_array.flat[int(rng.integers(b.nsample_array.size))] += 1
        elif what == "time":
            b.time_array += 1.0
            b.set_lsts_from_time_array()
        elif what == "freq":
            b.freq_array[int(rng.integers(b.Nfreqs))] += 1e3
        elif what == "pol":
            if b.Npols < 2:
                return
            b.reorder_pols(order=np.roll(np.arange(b.Npols), 1))
        elif what == "uvw":
            k = int(rng.integers(b.Nblts))
            if b.ant_1_array[k] == b.ant_2_array[k]:
                return
            b.uvw_array[k] += 1.0
        elif what == "units":
            b.vis_units = "Jy" if a.vis_units != "Jy" else "uncalib"
            b.pol_convention = None
        elif what == "ant":
            if b.Nblts < 2 or b.Nbls < 2 or b.Ntimes != 1:
                return
            b.reorder_blts(order=np.roll(np.arange(b.Nblts), 1))
        elif what == "tel":
            b.telescope = a.telescope.copy()
            b.telescope.name = "ELSEWHERE"
        elif what == "int":
            b.integration_time[int(rng.integers(b.Nblts))] += 1.0
        else:
            b.select(blt_inds=np.arange(b.Nblts - 1)) if b.Nblts > 1 else setattr(b, "vis_units", "Jy" if a.vis_units != "Jy" else "uncalib")
        if what in ("nsample", "flag", "uvw", "int") and rng.integers(2):
            opts["override_params"] = [{"nsample": "nsample_array", "flag": "flag_array", "uvw": "uvw_array", "int": "integration_time"}[what]]
            ctx.ev("override")
        else:
            expect_refusal = True
    sa, sb = canon.snap(a), canon.snap(b)
    fn = a.sum_vis if op == "sum" else a.diff_vis
    desc = f"{op}_vis({opts})"
    if expect_refusal:
        ctx.raises(ValueError, lambda: fn(b, **opts), f"{desc} with different {what}")
        ctx.check(not canon.diff(sa, a, exact=True) and not canon.diff(sb, b, exact=True), f"refused {desc} changed an operand")
        ctx.ev("refused_mismatch")
        ctx.case("refused", common.describe_uv(a), op, what)
        return
    want = sa["data_array"] + sb["data_array"] if op == "sum" else sa["data_array"] - sb["data_array"]
    res = fn(b, **opts)
    if opts.get("inplace"):
        ctx.check(res is None, f"{desc} returned an object")
        res = a
        ctx.ev("inplace")
    else:
        d = canon.diff(sa, a, exact=True)
        ctx.check(not d, f"{desc} changed the first operand: {d[:2]}")
        ctx.check(not np.shares_memory(res.data_array, a.data_array) and not np.shares_memory(res.flag_array, a.flag_array), f"{desc} result shares memory with an operand")
        ctx.ev("not_inplace")
    ctx.check(not canon.diff(sb, b, exact=True), f"{desc} changed the second operand")
    ctx.check(np.array_equal(res.data_array, want), f"{desc}: wrong visibilities")
    d = canon.diff(sa, res, exact=True, ignore=DATAISH)
    ctx.check(not d, lambda: f"{desc} changed other quantities: {d[:3]}")
    kw = dict(sb["extra_keywords"] or {})
    kw.update(sa["extra_keywords"] or {})
    ctx.check((res.extra_keywords or {}) == kw, f"{desc}: keywords {res.extra_keywords} expected {kw}")
    if sb["extra_keywords"] != sa["extra_keywords"]:
        ctx.ev("keywords_merged")
    ctx.check(res.history.startswith(sa["history"].strip()), f"{desc}: history lost")
    if sa["filename"] != sb["filename"]:
        ctx.check(sorted(res.filename) == sorted(set(sa["filename"]) | set(sb["filename"])), f"{desc}: filenames {res.filename}")
    common.sane(ctx, res, desc)
    # undo
    if op == "sum" and not opts.get("override_params"):
        back = res.diff_vis(b)
        ctx.check(np.allclose(back.data_array, sa["data_array"], rtol=1e-5, atol=1e-2), "(a + b) - b is not a")
    ctx.ev(op)
    ctx.case(op, common.describe_uv(a), opts)


def s_norm(ctx):
    rng = ctx.rng
    uv = gen.make_uvdata(rng, autos=True, nbl=int(rng.integers(2, 12)), dtype=np.complex128, pols=gen.make_pols(rng, full=bool(rng.integers(2))),
                         flag_p=gen.pick(rng, [0.0, 0.2]))
    au = uv.ant_1_array == uv.ant_2_array
    pols = [int(p) for p in uv.polarization_array]
    par = np.isin(pols, [-1, -2, -5, -6, 1, 2, 3, 4])
    m = np.ix_(au, np.arange(uv.Nfreqs), par)
    uv.data_array[m] = np.abs(uv.data_array[m]) + 0.5
    if au.any() and rng.integers(4) == 0:
        # an auto that cannot be used
        i = int(gen.pick(rng, np.nonzero(au)[0]))
        f = int(rng.integers(uv.Nfreqs))
        uv.data_array[i, f] = gen.pick(rng, [0.0, -3.0])
        ctx.ev("bad_auto")
    if rng.integers(3) == 0:
        uv.reorder_blts(order=rng.permutation(uv.Nblts))
    before = uv.copy()
    opts = {}
    if rng.integers(2):
        opts["skip_autos"] = bool(rng.integers(2))
    inv = rng.integers(4) == 0
    if inv:
        opts["invert"] = True
    what = f"normalize_by_autos({opts})"
    if not au.any():
        ctx.raises(ValueError, lambda: uv.normalize_by_autos(**opts), what + " without autos")
        ctx.check(not canon.diff(before, uv, exact=True), f"refused {what} changed the object")
        ctx.ev("no_auto_refused")
        return
    need = {p: AUTO_OF.get(p, (p, p)) for p in pols}
    if any(q not in pols for v in need.values() for q in v):
        ctx.raises(ValueError, lambda: uv.normalize_by_autos(**opts), what + " without parallel polarizations")
        ctx.check(not canon.diff(before, uv, exact=True), f"refused {what} changed the object")
        ctx.ev("missing_pol_refused")
        return
    if (np.diff(uv.time_array) < 0).any():
        ctx.ev("normalize_unordered")
    uv.normalize_by_autos(**opts)
    ctx.ev("normalize")
    auto = {(int(a), round(float(t) * 86400 * 50)): k for k, (a, b, t) in enumerate(zip(before.ant_1_array, before.ant_2_array, before.time_array)) if a == b}
    wd, wf = before.data_array.copy(), before.flag_array.copy()
    for k, (a, b, t) in enumerate(zip(before.ant_1_array.tolist(), before.ant_2_array.tolist(), before.time_array)):
        t = round(float(t) * 86400 * 50)
        ia, ib = auto.get((a, t)), auto.get((b, t))
        if ia is None or ib is None:
            wf[k] = True
            ctx.ev("missing_auto")
            continue
        for j, p in enumerate(pols):
            p1, p2 = (pols.index(q) for q in need[p])
            if opts.get("skip_autos", True) and a == b and p1 == p2:
                ctx.ev("skip_autos")
                continue
            if a == b:
                ctx.ev("autos_normalised")
            if p1 != p2:
                ctx.ev("cross_pol")
            x, y = before.data_array[ia, :, p1].real, before.data_array[ib, :, p2].real
            bad = before.flag_array[ia, :, p1] | before.flag_array[ib, :, p2] | ~(x > 0) | ~(y > 0)
            s = np.sqrt(np.where(bad, 1, x * y))
            wd[k, :, j] = np.where(bad, np.nan, before.data_array[k, :, j] * s if inv else before.data_array[k, :, j] / s)
            wf[k, :, j] |= bad
    ctx.check(np.array_equal(uv.flag_array, wf), lambda: f"{what}: flags wrong at {np.argwhere(uv.flag_array != wf)[0]}")
    good = ~wf & ~np.isnan(wd)
    ctx.check(np.allclose(uv.data_array[good], wd[good], rtol=1e-9), lambda: f"{what}: visibilities wrong, {int((~np.isclose(uv.data_array[good], wd[good])).sum())} of {good.sum()}")
    d = canon.diff(before, uv, exact=True, ignore=("data_array", "flag_array", "history"))
    ctx.check(not d, lambda: f"{what} changed other quantities: {d[:3]}")
    if inv:
        ctx.ev("invert")
    elif opts.get("skip_autos", True):
        uv.normalize_by_autos(invert=True)
        ctx.check(np.allclose(uv.data_array[good], before.data_array[good], rtol=1e-9), "normalising by autos and undoing it does not restore the visibilities")
        ctx.ev("restored")
    ctx.case("norm", common.describe_uv(before), opts)


def s_eq(ctx):
    rng = ctx.rng
    uv = gen.make_uvdata(rng, dtype=np.complex128)
    uv.eq_coeffs = rng.uniform(0.5, 3, (uv.telescope.Nants, uv.Nfreqs))
    conv = gen.pick(rng, ["multiply", "divide"])
    uv.eq_coeffs_convention = conv
    if rng.integers(2):
        common.random_ops(ctx, uv, n=int(rng.integers(1, 3)), allow=("select", "reorder", "conj", "freq", "pol"))
    if rng.integers(3) == 0:
        perm = rng.permutation(uv.telescope.Nants)
        for a in ("antenna_names", "antenna_numbers", "antenna_positions", "antenna_diameters"):
            v = getattr(uv.telescope, a)
            if v is not None:
                setattr(uv.telescope, a, np.asarray(v)[perm])
        uv.eq_coeffs = uv.eq_coeffs[perm]
    before = uv.copy()
    uv.remove_eq_coeffs()
    num = [int(x) for x in uv.telescope.antenna_numbers]
    i1 = np.array([num.index(a) for a in uv.ant_1_array])
    i2 = np.array([num.index(a) for a in uv.ant_2_array])
    f = (before.eq_coeffs[i1] * before.eq_coeffs[i2])[:, :, None]
    want = before.data_array * f if conv == "multiply" else before.data_array / f
    ctx.check(np.allclose(uv.data_array, want, rtol=1e-9), f"remove_eq_coeffs ({conv}): visibilities wrong")
    d = canon.diff(before, uv, exact=True, ignore=("data_array", "history", "eq_coeffs", "eq_coeffs_convention"))
    ctx.check(not d, lambda: f"remove_eq_coeffs changed other quantities: {d[:3]}")
    ctx.ev("eq_" + conv)
    ctx.case("eq", common.describe_uv(before), conv)


SCENARIOS = [Scenario("sum", s_sum, 500, 10000), Scenario("norm", s_norm, 500, 10000), Scenario("eq", s_eq, 200, 4000)]
