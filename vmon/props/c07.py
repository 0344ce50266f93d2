"""C07 Selection keeps exactly the requested measurements."""
import numpy as np

from pyuvdata import UVData  # noqa: F401
from vmon import canon, gen
from vmon.core import Scenario, Skip
from vmon.props import common
from vmon.props.c05 import check_subset, expected_subset, random_select

RULE = (
    "random objects (all layouts, windows sharing frequencies, several phase centers, metadata-only) after a "
    "random history, random combinations of every select keyword; result compared with our own filter; "
    "non-trivial = distinct (object, selection)"
)
REQUIRED = ["select", "refused", "bl_pol", "antstr", "union_freq", "shared_freq", "metadata_only", "inplace_false",
            "nothing_matches", "sel_lst_range", "sel_time_range", "sel_catalog_names", "intersect_ants"]

POLNUM = {"xx": -5, "yy": -6, "xy": -7, "yx": -8}


def _uv(ctx, **kw):
    rng = ctx.rng
    kw.setdefault("nbl", int(rng.integers(2, 10)))
    uv = gen.make_uvdata(rng, **kw)
    if rng.integers(3) == 0:
        uv.scan_number_array = rng.integers(0, 5, uv.Nblts)
    if rng.integers(4) == 0:
        uv.eq_coeffs = rng.uniform(1, 2, (uv.telescope.Nants, uv.Nfreqs))
        uv.eq_coeffs_convention = "divide"
    common.random_ops(ctx, uv, n=int(rng.integers(0, 3)))
    return uv


def _apply(ctx, uv, kw, rows, chans, pols, keep=True):
    rng = ctx.rng
    ctx.case(common.describe_uv(uv), {k: str(v)[:60] for k, v in kw.items()})
    exp = expected_subset(uv, rows, chans, pols)
    exp.pop("eq_coeffs", None)  # compared below, per antenna
    before = canon.snap(uv)
    antpos = dict(zip(uv.telescope.antenna_numbers.tolist(), uv.telescope.antenna_positions.copy()))
    antname = dict(zip(uv.telescope.antenna_numbers.tolist(), list(uv.telescope.antenna_names)))
    o = {} if keep else {"keep_all_metadata": False}
    if rng.integers(2):
        got = uv.select(inplace=False, **kw, **o)
        d = canon.diff(before, canon.snap(uv, deep=False), exact=True)
        ctx.check(not d, lambda: f"select(inplace=False, {kw}) changed the original: {d[:4]}")
        ctx.ev("inplace_false")
    else:
        uv.select(**kw, **o)
        got = uv
    check_subset(ctx, exp, got, f"select {kw}")
    ctx.check(str(got.history).startswith(str(before["history"])), "select lost history")
    cat = before["phase_center_catalog"]
    for i in np.unique(got.phase_center_id_array):
        ctx.check(canon.valdiff(cat[int(i)], got.phase_center_catalog.get(int(i))) is None,
                  f"phase center {i} changed or lost by select")
    if got.telescope.Nants != len(antpos):
        ctx.check(not keep, "antennas dropped although keep_all_metadata")
    if not keep and not rows.all():
        used = set(exp["ant_1_array"].tolist()) | set(exp["ant_2_array"].tolist())
        ctx.check(set(got.telescope.antenna_numbers.tolist()) == used, "keep_all_metadata=False kept other antennas")
        ctx.ev("trimmed")
    ctx.check(got.telescope.Nants == len(got.telescope.antenna_numbers) == len(got.telescope.antenna_names)
              == len(got.telescope.antenna_positions), "telescope counts")
    for n, p, nm in zip(got.telescope.antenna_numbers.tolist(), got.telescope.antenna_positions,
                        got.telescope.antenna_names):
        ctx.check(np.array_equal(p, antpos[n]) and nm == antname[n], f"antenna {n} mixed up")
    if got.eq_coeffs is not None:
        idx = [before["telescope.antenna_numbers"].tolist().index(n) for n in got.telescope.antenna_numbers.tolist()]
        ctx.check(np.array_equal(got.eq_coeffs, before["eq_coeffs"][idx][:, chans]), "eq_coeffs mixed up")
    ctx.ev("select")


def s_combo(ctx):
    rng = ctx.rng
    meta = rng.integers(5) == 0
    uv = _uv(ctx)
    if meta:
        uv.data_array = uv.flag_array = uv.nsample_array = None
        ctx.ev("metadata_only")
    kw, rows, chans, pols = random_select(ctx, uv, nkeys=int(gen.pick(rng, [1, 2, 2, 3, 4])))
    if not kw or not rows.any():
        raise Skip("empty")
    _apply(ctx, uv, kw, rows, chans, pols, keep=bool(rng.integers(3)))


def s_forms(ctx):
    """Alternative spellings of the same criteria."""
    rng = ctx.rng
    form = gen.pick(rng, ["bl_pol", "bl_number", "polstr", "union", "antstr", "intersect", "scalar", "two_d",
                          "phase_centers", "dup"])
    lin = form in ("bl_pol", "polstr", "antstr")
    uv = _uv(ctx, pols=gen.make_pols(rng, kind="lin") if lin else None,
             x_orientation="rand", antnums=None)
    rows = np.ones(uv.Nblts, bool)
    chans = np.ones(uv.Nfreqs, bool)
    pols = np.ones(uv.Npols, bool)
    a1, a2 = uv.ant_1_array, uv.ant_2_array
    pairs = sorted(set(zip(a1.tolist(), a2.tolist())))
    have = [int(p) for p in uv.polarization_array]
    kw = {}
    if form == "bl_pol":
        rev = {v: k for k, v in POLNUM.items()}
        sel, want_p, want_b = [], set(), set()
        for i in rng.choice(len(pairs), int(rng.integers(1, len(pairs) + 1)), replace=False):
            p = int(gen.pick(rng, have))
            b = pairs[int(i)]
            if b[0] != b[1] and b[::-1] in pairs:
                raise Skip("both orientations present")
            if rng.integers(2) and b[0] != b[1]:
                sel.append((b[1], b[0], rev[p][::-1]))
            else:
                sel.append((b[0], b[1], rev[p]))
            want_p.add(p)
            want_b.add(b)
        kw["bls"] = sel
        rows = np.array([(x, y) in want_b for x, y in zip(a1.tolist(), a2.tolist())])
        pols = np.isin(uv.polarization_array, list(want_p))
        ctx.ev("bl_pol")
    elif form == "bl_number":
        bl = np.unique(uv.baseline_array)
        sel = rng.choice(bl, int(rng.integers(1, len(bl) + 1)), replace=False)
        pr = {(x, y) for x, y, b in zip(a1.tolist(), a2.tolist(), uv.baseline_array) if b in sel}
        rows = np.array([(x, y) in pr for x, y in zip(a1.tolist(), a2.tolist())])
        kw["bls"] = [int(v) for v in sel]
    elif form == "polstr":
        sel = rng.choice(uv.Npols, int(rng.integers(1, uv.Npols + 1)), replace=False)
        rev = {v: k for k, v in POLNUM.items()}
        en = {"east": {"x": "e", "y": "n"}, "north": {"x": "n", "y": "e"}}[uv.telescope.x_orientation]
        out = []
        for i in sel:
            s = rev[have[i]]
            if rng.integers(2):
                s = en[s[0]] + en[s[1]]
            out.append(s.upper() if rng.integers(2) else s)
        kw["polarizations"] = out
        pols = np.zeros(uv.Npols, bool)
        pols[sel] = True
    elif form == "union":
        i1 = rng.choice(uv.Nfreqs, int(rng.integers(1, uv.Nfreqs + 1)), replace=False)
        i2 = rng.choice(uv.Nfreqs, int(rng.integers(1, uv.Nfreqs + 1)), replace=False)
        kw["freq_chans"] = i1
        kw["frequencies"] = uv.freq_array[i2]
        chans = np.zeros(uv.Nfreqs, bool)
        chans[i1] = chans[i2] = True
        ctx.ev("union_freq")
    elif form == "antstr":
        present = sorted(set(a1.tolist()) | set(a2.tolist()))
        kind = gen.pick(rng, ["ant", "pairs", "notant", "auto", "ant_x", "paren"])
        if kind == "ant":
            n = int(gen.pick(rng, present))
            s = str(n)
            m = (a1 == n) | (a2 == n)
        elif kind == "pairs":
            sel = [pairs[i] for i in rng.choice(len(pairs), int(rng.integers(1, len(pairs) + 1)), replace=False)]
            s = ",".join(f"{x}_{y}" if rng.integers(2) else f"{y}_{x}" for x, y in sel)
            ss = set(sel) | {p[::-1] for p in sel}
            m = np.array([(x, y) in ss for x, y in zip(a1.tolist(), a2.tolist())])
        elif kind == "notant":
            n = int(gen.pick(rng, present))
            s = f"all,-{n}"
            m = (a1 != n) & (a2 != n)
        elif kind == "auto":
            s = "auto"
            m = a1 == a2
        elif kind == "paren":
            n = int(gen.pick(rng, present))
            oth = sorted({y if x == n else x for x, y in pairs if n in (x, y)})
            if not oth:
                raise Skip("none")
            s = f"({n})_({','.join(map(str, oth))})" if len(oth) > 1 else f"{n}_{oth[0]}"
            m = np.array([(n in (x, y)) for x, y in zip(a1.tolist(), a2.tolist())])
        else:
            n = int(gen.pick(rng, present))
            s = f"{n}"
            m = (a1 == n) | (a2 == n)
        if not m.any():
            raise Skip("nothing")
        kw["ant_str"] = s
        rows = m
        ctx.ev("antstr")
    elif form == "intersect":
        present = np.unique(np.concatenate([a1, a2]))
        ants = rng.choice(present, int(rng.integers(1, len(present) + 1)), replace=False)
        sel = [pairs[i] for i in rng.choice(len(pairs), int(rng.integers(1, len(pairs) + 1)), replace=False)]
        ss = set(sel) | {p[::-1] for p in sel}
        rows = np.isin(a1, ants) & np.isin(a2, ants)
        rows &= np.array([(x, y) in ss for x, y in zip(a1.tolist(), a2.tolist())])
        kw["antenna_nums"], kw["bls"] = ants, sel
        if rng.integers(2):
            bi = np.sort(rng.choice(uv.Nblts, int(rng.integers(1, uv.Nblts + 1)), replace=False))
            kw["blt_inds"] = bi
            m = np.zeros(uv.Nblts, bool)
            m[bi] = True
            rows &= m
        if not rows.any():
            raise Skip("nothing")
        ctx.ev("intersect_ants")
    elif form == "scalar":
        c = gen.pick(rng, ["freq", "pol", "time", "bl", "blt"])
        if c == "freq":
            i = int(rng.integers(uv.Nfreqs))
            kw["freq_chans"] = i
            chans = np.arange(uv.Nfreqs) == i
        elif c == "pol":
            kw["polarizations"] = int(gen.pick(rng, have))
            pols = uv.polarization_array == kw["polarizations"]
        elif c == "time":
            t = float(gen.pick(rng, np.unique(uv.time_array)))
            kw["times"] = t
            rows = uv.time_array == t
        elif c == "bl":
            b = gen.pick(rng, pairs)
            kw["bls"] = b
            rows = np.array([(x, y) in (b, b[::-1]) for x, y in zip(a1.tolist(), a2.tolist())])
        else:
            i = int(rng.integers(uv.Nblts))
            kw["blt_inds"] = [i]
            rows = np.arange(uv.Nblts) == i
    elif form == "two_d":
        n = uv.Nfreqs // 2 * 2
        if n == 0:
            raise Skip("one channel")
        idx = rng.permutation(uv.Nfreqs)[:n]
        kw["freq_chans"] = idx.reshape(2, -1)
        chans = np.isin(np.arange(uv.Nfreqs), idx)
    elif form == "phase_centers":
        ids = np.unique(uv.phase_center_id_array)
        i = int(gen.pick(rng, ids))
        if rng.integers(2):
            kw["phase_center_ids"] = i
            rows = uv.phase_center_id_array == i
        else:
            nm = uv.phase_center_catalog[i]["cat_name"]
            kw["catalog_names"] = nm
            rows = np.isin(uv.phase_center_id_array, [k for k, v in uv.phase_center_catalog.items() if v["cat_name"] == nm])
    else:
        i = rng.integers(0, uv.Nblts, 2 * uv.Nblts)
        kw["blt_inds"] = i
        rows = np.isin(np.arange(uv.Nblts), i)
        f = rng.integers(0, uv.Nfreqs, uv.Nfreqs + 1)
        kw["freq_chans"] = f
        chans = np.isin(np.arange(uv.Nfreqs), f)
    # both orientations of one pair: the criteria then name one of them only
    if any(p[::-1] in pairs for p in pairs if p[0] != p[1]) and ("bls" in kw or "ant_str" in kw):
        raise Skip("both orientations present")
    ctx.ev("form_" + form)
    _apply(ctx, uv, kw, rows, chans, pols)


def s_shared_freq(ctx):
    """Windows that share frequency values: a channel number means that channel only."""
    rng = ctx.rng
    uv = gen.make_uvdata(rng, nspw=2, chans=int(rng.integers(2, 5)), even_freq=True, ascending=True)
    n = uv.Nfreqs // 2
    uv.freq_array[n:] = uv.freq_array[:n]
    uv.channel_width[n:] = uv.channel_width[:n]
    uv.check()
    k = int(rng.integers(1, uv.Nfreqs))
    idx = np.sort(rng.choice(uv.Nfreqs, k, replace=False))
    chans = np.isin(np.arange(uv.Nfreqs), idx)
    ctx.ev("shared_freq")
    _apply(ctx, uv, {"freq_chans": idx}, np.ones(uv.Nblts, bool), chans, np.ones(uv.Npols, bool))


def s_refuse(ctx):
    rng = ctx.rng
    uv = _uv(ctx)
    present = set(uv.ant_1_array.tolist()) | set(uv.ant_2_array.tolist())
    nums = uv.telescope.antenna_numbers.tolist()
    t = np.unique(uv.time_array)
    absent_pol = int(gen.pick(rng, [p for p in [-5, -6, -7, -8, -1, 1] if p not in uv.polarization_array.tolist()]))
    pairs = set(zip(uv.ant_1_array.tolist(), uv.ant_2_array.tolist()))
    opts = [
        ("antenna_nums", [max(nums) + 7]),
        ("antenna_names", ["no such antenna"]),
        ("bls", [(max(nums) + 7, max(nums) + 8)]),
        ("times", [t[0] - 1.0]),
        ("time_range", [t[-1] + 1.0, t[-1] + 2.0]),
        ("time_range", [t[0] - 5.0]),
        ("frequencies", [float(uv.freq_array[0]) + 333.0]),
        ("polarizations", [absent_pol]),
        ("blt_inds", [uv.Nblts]),
        ("blt_inds", [-1]),
        ("phase_center_ids", [max(uv.phase_center_catalog) + 5]),
        ("catalog_names", ["nowhere"]),
        ("lsts", [float(uv.lst_array[0]) + 0.5]),
        ("ant_str", "nonsense"),
    ]
    missing = [a for a in nums if a not in present]
    if missing:
        opts.append(("antenna_nums", [missing[0]]))
    absent = [(a, b) for a in present for b in present if (a, b) not in pairs and (b, a) not in pairs]
    if absent:
        opts.append(("bls", [absent[0]]))
    autos = [p for p in pairs if p[0] == p[1]]
    if not autos:
        opts.append(("ant_str", "auto"))
        ctx.ev("nothing_matches")
    k, v = gen.pick(rng, opts)
    # combine with a valid criterion part of the time
    kw = {k: v}
    if rng.integers(2) and k not in ("frequencies",):
        kw["freq_chans"] = [0]
    ctx.case(common.describe_uv(uv), kw)
    before = canon.snap(uv)
    e = ctx.raises((ValueError, KeyError, IndexError, TypeError),
                   lambda: uv.select(inplace=bool(rng.integers(2)), **kw), f"select {kw}")
    ctx.log(str(e))
    d = canon.diff(before, canon.snap(uv, deep=False), exact=True)
    ctx.check(not d, lambda: f"refused select {kw} changed the object: {d[:4]}")
    ctx.ev("refused")


SCENARIOS = [
    Scenario("combo", s_combo, 900, 15000),
    Scenario("forms", s_forms, 600, 10000),
    Scenario("shared_freq", s_shared_freq, 60, 600),
    Scenario("refuse", s_refuse, 300, 3000),
]
