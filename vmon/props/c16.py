"""C16 Flexible polarization / Jones conversion."""
import numpy as np

from vmon import canon, gen
from vmon.core import Scenario
from vmon.props import common

RULE = (
    "random objects (1-4 windows in any channel order, 1-4 polarizations, bandpass coefficients, calibration objects of every type and "
    "optional quality array) are converted to flexible polarization/Jones and back with operations in between; every sample is looked up by "
    "(record, frequency, width, polarization); non-trivial = distinct (object, history)"
)
REQUIRED = ["to_flex", "back", "back_uncombined", "shuffled_channels", "shuffled_windows", "select_on_flex", "select_pol", "eq_coeffs", "metadata_only", "cal_to_flex",
            "cal_back", "cal_wide", "cal_total_quality", "cal_back_uncombined", "already_flex_refused", "cal_unequal_windows", "make_flex", "duplicate_refused", "uvh5"]


def _samples(uv):
    """(blt row, freq, width, pol) -> (data, flag, nsample), plus bandpass coefficients by (freq, width)"""
    out = {}
    if uv.flex_spw_polarization_array is not None:
        pol_of = dict(zip(np.asarray(uv.spw_array).tolist(), np.asarray(uv.flex_spw_polarization_array).tolist()))
        cols = [(c, 0, int(pol_of[int(s)])) for c, s in enumerate(uv.flex_spw_id_array)]
    else:
        cols = [(c, j, int(p)) for c in range(uv.Nfreqs) for j, p in enumerate(uv.polarization_array)]
    dup = []
    for c, j, p in cols:
        k = (round(float(uv.freq_array[c])), round(float(uv.channel_width[c])), p)
        v = (uv.data_array[:, c, j], uv.flag_array[:, c, j], uv.nsample_array[:, c, j], None if uv.eq_coeffs is None else uv.eq_coeffs[:, c])
        if k in out:
            dup.append(k)
        out.setdefault(k, []).append(v)
    return out, dup


def _same(ctx, a, b, what, padded=False):
    sa, _ = a if isinstance(a, tuple) else _samples(a)
    sb, _ = b if isinstance(b, tuple) else _samples(b)
    if padded:
        for k in set(sb) - set(sa):
            for v in sb[k]:
                ctx.check(v[1].all(), f"{what}: padded sample {k} is not flagged")
        ctx.check(set(sa) <= set(sb), f"{what}: lost {sorted(set(sa) - set(sb))[:3]}")
    else:
        ctx.check(set(sa) == set(sb), f"{what}: samples differ: {sorted(set(sa) ^ set(sb))[:4]}")
    for k in sa:
        if padded:
            ok = any(_veq(sa[k][0], v) for v in sb[k])
        else:
            ok = len(sa[k]) == len(sb[k]) and all(any(_veq(x, y) for y in sb[k]) for x in sa[k])
        ctx.check(ok, lambda: f"{what}: values of {k} changed: {[x[0][:2] for x in sa[k]]} -> {[x[0][:2] for x in sb[k]]}")


def _veq(x, y):
    return all((p is None and q is None) or (p is not None and q is not None and np.array_equal(p, q)) for p, q in zip(x, y))


def _mk(ctx):
    rng = ctx.rng
    uv = gen.make_uvdata(rng, nbl=int(rng.integers(1, 4)), ntimes=int(rng.integers(1, 3)), nspw=int(rng.integers(1, 5)))
    if rng.integers(4) == 0:
        uv.eq_coeffs = rng.uniform(0.5, 2, (uv.telescope.Nants, uv.Nfreqs))
        uv.eq_coeffs_convention = "divide"
        ctx.ev("eq_coeffs")
    return uv


BLT = ("ant_1_array", "ant_2_array", "time_array", "lst_array", "uvw_array", "integration_time", "phase_center_app_ra", "phase_center_app_dec",
       "phase_center_frame_pa", "phase_center_id_array", "baseline_array", "Nblts", "Ntimes", "Nbls", "phase_center_catalog", "vis_units", "extra_keywords",
       "telescope.antenna_positions", "telescope.antenna_names", "telescope.antenna_numbers", "telescope.location", "pol_convention", "blt_order", "scan_number_array")


def s_flex(ctx):
    rng = ctx.rng
    uv = _mk(ctx)
    if rng.integers(4) == 0:
        uv.reorder_freqs(channel_order=rng.permutation(uv.Nfreqs))
        ctx.ev("shuffled_channels")
    before = uv.copy()
    s0 = _samples(before)
    hist = ["convert"]
    uv.convert_to_flex_pol()
    uv.check()
    ctx.check(uv.flex_spw_polarization_array is not None and uv.Npols == 1 and len(uv.flex_spw_polarization_array) == uv.Nspws == before.Nspws * before.Npols
              and uv.Nfreqs == before.Nfreqs * before.Npols, "convert_to_flex_pol: wrong counts")
    _same(ctx, s0, uv, "convert_to_flex_pol")
    d = canon.diff(before, uv, only=BLT, exact=True)
    ctx.check(not d, f"convert_to_flex_pol changed {d[:2]}")
    ctx.raises(ValueError, uv.convert_to_flex_pol, "convert_to_flex_pol on a flex-pol object")
    ctx.ev("already_flex_refused")
    ctx.ev("to_flex")
    # windows stay whole: the set of (freq, width) of each window is that of an original one
    orig = {frozenset((round(float(f)), round(float(w))) for f, w in zip(before.freq_array[before.flex_spw_id_array == s], before.channel_width[before.flex_spw_id_array == s])) for s in before.spw_array}
    now = [frozenset((round(float(f)), round(float(w))) for f, w in zip(uv.freq_array[uv.flex_spw_id_array == s], uv.channel_width[uv.flex_spw_id_array == s])) for s in uv.spw_array]
    ctx.check(set(now) == orig, "convert_to_flex_pol mixed channels of different windows")
    if rng.integers(3) == 0:
        p = ctx.path("flex.uvh5")
        uv.write_uvh5(p)
        v = type(uv)()
        v.read(p)
        v.filename = None
        uv = v
        _same(ctx, s0, uv, "writing a flex-pol object to uvh5")
        hist.append("uvh5")
        ctx.ev("uvh5")
    sel = None
    for _ in range(int(rng.integers(0, 3))):
        op = gen.pick(rng, ["channels", "windows", "chanorder", "blts", "perm"])
        hist.append(op)
        if op == "channels":
            uv.reorder_freqs(channel_order=gen.pick(rng, ["freq", "-freq"]))
            ctx.ev("shuffled_channels")
        elif op == "windows":
            uv.reorder_freqs(spw_order=rng.permutation(uv.Nspws))
            ctx.ev("shuffled_windows")
        elif op == "chanorder":
            uv.reorder_freqs(spw_order=gen.pick(rng, ["number", "freq", "-number", "-freq"]), channel_order=gen.pick(rng, ["freq", "-freq"]))
            ctx.ev("shuffled_windows")
        elif op == "perm":
            uv.reorder_freqs(channel_order=rng.permutation(uv.Nfreqs))
            ctx.ev("shuffled_channels")
        else:
            o = rng.permutation(uv.Nblts)
            uv.reorder_blts(order=o)
            s0 = ({k: [tuple(x[o] if x is not None and i < 3 else x for i, x in enumerate(v)) for v in vs] for k, vs in s0[0].items()}, [])
        _same(ctx, s0, uv, f"flex-pol after {hist}")
    if rng.integers(3) == 0 and before.Npols > 1:
        # selecting polarizations in either form gives the same measurements
        n = int(rng.integers(1, before.Npols + 1))
        sel = [int(p) for p in rng.choice(before.polarization_array, n, replace=False)]
        uv.select(polarizations=sel)
        ref = before.copy()
        ref.select(polarizations=sel)
        s0 = ({k: v for k, v in s0[0].items() if k[2] in sel}, [])
        hist.append(f"select {sel}")
        _same(ctx, s0, uv, f"flex-pol select({sel})")
        want = set(k for k in _samples(ref)[0])
        ctx.check(want == set(s0[0]), "regular select disagrees")
        ctx.ev("select_pol")
    if rng.integers(4) == 0 and uv.Nspws > 1:
        # drop one flexible window: cannot be recombined then
        keep = sorted(rng.choice(np.asarray(uv.spw_array), uv.Nspws - 1, replace=False).tolist())
        chans = np.nonzero(np.isin(uv.flex_spw_id_array, keep))[0]
        uv.select(freq_chans=chans)
        s0 = _samples(uv)
        hist.append("drop window")
        ctx.ev("select_on_flex")
    comb = bool(rng.integers(3))
    flexlike = uv.flex_spw_polarization_array is not None
    pairs = None
    if flexlike:
        # is recombination possible?
        sets = {}
        for s, p in zip(uv.spw_array, uv.flex_spw_polarization_array):
            m = uv.flex_spw_id_array == s
            sets.setdefault(tuple(sorted((float(f), float(w)) for f, w in zip(uv.freq_array[m], uv.channel_width[m]))), []).append(int(p))
        pairs = sets
    npol = len(set(np.asarray(uv.flex_spw_polarization_array).tolist())) if flexlike else None
    meta = uv.copy(metadata_only=True) if rng.integers(4) == 0 else None
    uv.remove_flex_pol(combine_spws=comb)
    hist.append(f"remove combine={comb}")
    what = f"remove_flex_pol after {hist}"
    ctx.check(uv.flex_spw_polarization_array is None, f"{what}: still flex-pol")
    full = comb and flexlike and all(len(v) == npol for v in pairs.values())
    _same(ctx, s0, uv, what, padded=not full and flexlike and npol > 1)
    if full and npol > 1:
        ctx.check(uv.Nspws == len(pairs) and uv.Nfreqs == sum(map(len, pairs)), f"{what}: windows not recombined ({uv.Nspws} of {len(pairs)})")
        ctx.ev("back")
    elif flexlike and npol > 1:
        ctx.ev("back_uncombined")
    if len(hist) == 2 and comb and before.Npols > 1:
        d = canon.dictdiff(canon.ledger(before, spw_ids=False), canon.ledger(uv, spw_ids=False), exact=True)
        ctx.check(not d, f"{what} does not restore the object: {d[:3]}")
    common.sane(ctx, uv, what)
    uv.check()
    if meta is not None:
        meta.remove_flex_pol(combine_spws=comb)
        d = canon.diff(uv, meta, exact=True, ignore=("data_array", "flag_array", "nsample_array"))
        ctx.check(not d, f"{what}: metadata-only object differs: {d[:2]}")
        ctx.ev("metadata_only")
    ctx.case("flex", common.describe_uv(before), hist)


def s_dup(ctx):
    """windows that cannot be told apart are refused; compact form of one-polarization-per-window data"""
    rng = ctx.rng
    uv = _mk(ctx)
    if uv.Npols < 2:
        return
    if rng.integers(2):
        uv.convert_to_flex_pol()
        uv.flex_spw_polarization_array = np.asarray(uv.flex_spw_polarization_array).copy()
        # give all but one window of a set the same polarization
        first = uv.flex_spw_id_array[0]
        uv.flex_spw_polarization_array[:] = uv.flex_spw_polarization_array[np.asarray(uv.spw_array) == first][0]
        i = int(np.nonzero(np.asarray(uv.spw_array) == uv.flex_spw_id_array[-1])[0][0])
        alt = -6 if uv.flex_spw_polarization_array[0] != -6 else -5
        uv.flex_spw_polarization_array[i] = alt
        counts = {}
        for s, p in zip(uv.spw_array, uv.flex_spw_polarization_array):
            m = uv.flex_spw_id_array == s
            k = (tuple(sorted(uv.freq_array[m].tolist())), int(p))
            counts[k] = counts.get(k, 0) + 1
        if max(counts.values()) > 1:
            before = uv.copy()
            ctx.raises(ValueError, uv.remove_flex_pol, "remove_flex_pol with identical windows")
            d = canon.diff(before, uv, exact=True)
            ctx.check(not d, f"refused remove_flex_pol changed the object: {d[:2]}")
            ctx.ev("duplicate_refused")
            s0 = _samples(uv)
            uv.remove_flex_pol(combine_spws=False)
            got, _ = _samples(uv)
            for k, vs in s0[0].items():
                ctx.check(all(any(_veq(x, y) for y in got.get(k, [])) for x in vs), f"remove_flex_pol(combine_spws=False) lost {k}")
        ctx.case("dup", common.describe_uv(uv))
        return
    # one unflagged polarization per window
    pol_of = {}
    for s in uv.spw_array:
        j = int(rng.integers(uv.Npols))
        pol_of[int(s)] = int(uv.polarization_array[j])
        m = uv.flex_spw_id_array == s
        f = np.ones((uv.Nblts, m.sum(), uv.Npols), dtype=bool)
        f[:, :, j] = rng.random((uv.Nblts, m.sum())) < 0.3
        f[0, 0, j] = False
        uv.flag_array[:, m] = f
    before = uv.copy()
    s0 = _samples(before)
    uv._make_flex_pol()
    got = dict(zip(np.asarray(uv.spw_array).tolist(), np.asarray(uv.flex_spw_polarization_array).tolist()))
    ctx.check(got == pol_of, f"compact flex-pol form has polarizations {got}, unflagged ones are {pol_of}")
    s1, _ = _samples(uv)
    for k, vs in s1.items():
        ctx.check(all(any(_veq(x, y) for y in s0[0].get(k, [])) for x in vs), f"compact flex-pol form changed {k}")
    for k, vs in s0[0].items():
        if any((~v[1]).any() for v in vs):
            ctx.check(k in s1, f"compact flex-pol form lost unflagged {k}")
    uv.check()
    uv.remove_flex_pol(combine_spws=False)
    s2, _ = _samples(uv)
    for k, vs in s0[0].items():
        for x in vs:
            if (~x[1]).any():
                ctx.check(any(_veq(x, y) for y in s2.get(k, [])), f"compact flex-pol form and back lost {k}")
    ctx.ev("make_flex")
    ctx.case("make", common.describe_uv(before))


# ------------------------------------------------------------------ calibration


def _csamples(c):
    out = {}
    fx = c.flex_jones_array is not None
    jof = dict(zip(np.asarray(c.spw_array).tolist(), np.asarray(c.flex_jones_array).tolist())) if fx else None
    if c.wide_band:
        cols = [(i, (round(float(c.freq_range[i, 0])), round(float(c.freq_range[i, 1]))), int(s)) for i, s in enumerate(c.spw_array)]
    else:
        cols = [(i, (round(float(c.freq_array[i])), round(float(c.channel_width[i]))), int(c.flex_spw_id_array[i])) for i in range(c.Nfreqs)]
    for i, k, s in cols:
        for j, p in enumerate([jof[s]] if fx else [int(x) for x in c.jones_array]):
            v = []
            for a in ("gain_array", "delay_array", "flag_array", "quality_array"):
                x = getattr(c, a)
                v.append(None if x is None else x[:, i, :, j])
            x = c.total_quality_array
            v.append(None if x is None else x[i, :, j])
            out.setdefault((*k, p), []).append(tuple(v))
    return out


def _cmp_cal(ctx, a, b, what, padded=False):
    sb = _csamples(b)
    if padded:
        for k in set(sb) - set(a):
            ctx.check(all(v[2].all() for v in sb[k]), f"{what}: padded solution {k} not flagged")
    else:
        ctx.check(set(a) == set(sb), f"{what}: solutions differ {sorted(set(a) ^ set(sb))[:3]}")
    for k, vs in a.items():
        ctx.check(all(any(_veq(x, y) for y in sb.get(k, [])) for x in vs), lambda: f"{what}: values of {k} changed")


def s_cal(ctx):
    rng = ctx.rng
    c = gen.make_uvcal(rng, nspw=int(rng.integers(1, 4)))
    before = c.copy()
    s0 = _csamples(c)
    if c.wide_band:
        ctx.ev("cal_wide")
    elif len({int((c.flex_spw_id_array == s).sum()) for s in c.spw_array}) > 1:
        ctx.ev("cal_unequal_windows")
    if c.total_quality_array is not None:
        ctx.ev("cal_total_quality")
    c.convert_to_flex_jones()
    c.check()
    _cmp_cal(ctx, s0, c, "convert_to_flex_jones")
    ctx.raises(ValueError, c.convert_to_flex_jones, "convert_to_flex_jones on a flex-Jones object")
    ctx.ev("cal_to_flex")
    hist = []
    if rng.integers(3) == 0 and not c.wide_band:
        c.reorder_freqs(spw_order=rng.permutation(c.Nspws))
        hist.append("reorder")
        _cmp_cal(ctx, s0, c, "flex-Jones reorder_freqs")
    if rng.integers(3) == 0:
        p = ctx.path("c.calh5")
        c.write_calh5(p)
        v = type(c)()
        v.read(p)
        c = v
        hist.append("calh5")
        _cmp_cal(ctx, s0, c, "flex-Jones object through CalH5")
    if rng.integers(4) == 0 and c.Nspws > 1:
        if c.wide_band:
            c.select(spws=np.asarray(c.spw_array)[:-1])
        else:
            keep = np.nonzero(c.flex_spw_id_array != c.flex_spw_id_array[-1])[0]
            c.select(freq_chans=keep)
        s0 = _csamples(c)
        hist.append("drop window")
    comb = bool(rng.integers(3))
    fj = None if c.flex_jones_array is None else np.asarray(c.flex_jones_array).copy()
    c.remove_flex_jones(combine_spws=comb)
    what = f"remove_flex_jones(combine_spws={comb}) after {hist}"
    ctx.check(c.flex_jones_array is None, f"{what}: still flex-Jones")
    c.check()
    full = comb and "drop window" not in hist
    _cmp_cal(ctx, s0, c, what, padded=not full)
    if full:
        ctx.check(c.Nspws == before.Nspws and c.Njones == before.Njones, f"{what}: not recombined")
        ctx.ev("cal_back")
    elif fj is not None:
        ctx.ev("cal_back_uncombined")
    d = canon.diff(before, c, exact=True, only=("ant_array", "time_array", "time_range", "lst_array", "integration_time", "cal_type", "cal_style", "gain_convention", "ref_antenna_name",
                                                "ref_antenna_array", "phase_center_id_array", "scan_number_array", "telescope.antenna_numbers", "telescope.antenna_positions"))
    ctx.check(not d, f"{what} changed {d[:2]}")
    ctx.case("cal", before.cal_type, before.wide_band, before.Nspws, before.jones_array, before.Nants_data, before.flag_array.sum(), hist, comb)


SCENARIOS = [Scenario("flex", s_flex, 600, 12000), Scenario("dup", s_dup, 200, 4000), Scenario("cal", s_cal, 350, 7000)]
