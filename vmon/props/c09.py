"""C09 Reordering and conjugating only relabel the data."""
import numpy as np

from vmon import canon, gen
from vmon.core import Scenario, Skip
from vmon.props import common

RULE = (
    "random objects driven through random sequences of reorder_blts / reorder_freqs / reorder_pols / "
    "conjugate_bls (all options, index arrays); after every step the orientation-free sample ledger must be "
    "the initial one, the requested order must hold and every ordering claim must be true; "
    "non-trivial = distinct (object, operation sequence)"
)
REQUIRED = ["blts_time", "blts_baseline", "blts_ant1", "blts_ant2", "blts_bda", "blts_index", "autos_first",
            "conj_convention", "conj_index", "conj_uv", "freqs_spw", "freqs_chan", "freqs_select",
            "freqs_index", "pols_AIPS", "pols_CASA", "pols_index", "metadata_only", "conj_back", "flipped",
            "rectangular", "not_rectangular", "order_none", "order_time_baseline", "order_baseline_time"]

KEYS = {"time": "time_array", "baseline": "baseline_array", "ant1": "ant_1_array", "ant2": "ant_2_array"}


def _sorted_by(uv, rows, order, minor):
    a = getattr(uv, KEYS[order])[rows]
    b = getattr(uv, KEYS[minor])[rows]
    # (unsigned numbers: no differences)
    return bool(np.all(a[1:] >= a[:-1]) and np.all((b[1:] >= b[:-1])[a[1:] == a[:-1]]))


def _aips(p):
    return sorted(p, key=abs)


def _step(ctx, uv, meta):
    """One operation and its own postcondition. Returns its description."""
    rng = ctx.rng
    kind = gen.pick(rng, ["blts", "blts", "blts", "conj", "conj", "freqs", "freqs", "pols"])
    claims = True
    pols = set(int(p) for p in uv.polarization_array)
    closed = all(canon.CONJ_POL.get(p, p) in pols for p in pols)
    if kind == "conj" and not closed:
        kind = "pols"
    if kind == "blts":
        kw = {}
        if rng.integers(5) == 0:
            order = rng.permutation(uv.Nblts)
            exp = {a: getattr(uv, a)[order].copy() for a in ("time_array", "ant_1_array", "ant_2_array")}
            uv.reorder_blts(order=order if rng.integers(2) else list(int(i) for i in order))
            for a, v in exp.items():
                ctx.check(np.array_equal(getattr(uv, a), v), f"reorder_blts(index): {a} not as indexed")
            ctx.ev("blts_index")
            return "reorder_blts(index)", claims
        order = gen.pick(rng, ["time", "baseline", "ant1", "ant2", "bda"])
        minor = None
        if order in ("time", "ant1", "ant2") and rng.integers(2):
            minor = gen.pick(rng, [m for m in ["time", "baseline", "ant1", "ant2"] if m != order])
        if order == "baseline" and rng.integers(2):
            minor = "time"
        if minor:
            kw["minor_order"] = minor
        if rng.integers(4) == 0:
            kw["autos_first"] = True
        if closed and rng.integers(4) == 0:
            kw["conj_convention"] = gen.pick(rng, ["ant1<ant2", "ant2<ant1"])
        uv.reorder_blts(order=order, **kw)
        ctx.ev("blts_" + order)
        auto = uv.ant_1_array == uv.ant_2_array
        groups = [np.arange(uv.Nblts)]
        if kw.get("autos_first"):
            ctx.ev("autos_first")
            n = int(auto.sum())
            ctx.check(bool(np.all(auto[:n])), "autos_first: autos are not first")
            groups = [np.arange(n), np.arange(n, uv.Nblts)]
            claims = False  # the order then holds within autos and crosses separately
        eff = minor or {"time": "baseline", "ant1": "ant2", "ant2": "ant1", "baseline": "time"}.get(order)
        for g in groups:
            if order == "bda":
                ok = bool(np.all(np.diff(uv.integration_time[g]) >= 0))
            else:
                ok = _sorted_by(uv, g, order, eff)
            ctx.check(ok, f"reorder_blts({order}, {kw}): axis is not in the requested order")
        if "conj_convention" in kw:
            ctx.ev("conj_convention")
            a1, a2 = uv.ant_1_array, uv.ant_2_array
            ok = np.all(a1 <= a2) if kw["conj_convention"] == "ant1<ant2" else np.all(a1 >= a2)
            ctx.check(bool(ok), f"reorder_blts conj_convention={kw['conj_convention']} not met")
        return f"reorder_blts({order},{kw})", claims
    if kind == "conj":
        c = gen.pick(rng, ["ant1<ant2", "ant2<ant1", "u<0", "u>0", "v<0", "v>0", "index"])
        if c == "index":
            idx = np.sort(rng.choice(uv.Nblts, int(rng.integers(1, uv.Nblts + 1)), replace=False))
            idx = idx[uv.ant_1_array[idx] != uv.ant_2_array[idx]]
            if len(idx) == 0:
                return "nothing", claims
            a1 = uv.ant_1_array.copy()
            a2 = uv.ant_2_array.copy()
            uv.conjugate_bls(idx)
            m = np.isin(np.arange(uv.Nblts), idx)
            ctx.check(np.array_equal(uv.ant_1_array, np.where(m, a2, a1))
                      and np.array_equal(uv.ant_2_array, np.where(m, a1, a2)),
                      "conjugate_bls(index): other records than the indexed ones were reoriented")
            ctx.ev("conj_index")
            ctx.ev("flipped", int(len(idx)))
            return "conjugate_bls(index)", claims
        use_enu = bool(rng.integers(2))
        old1 = uv.ant_1_array.copy()
        uv.conjugate_bls(c, use_enu=use_enu) if c[0] in "uv" else uv.conjugate_bls(c)
        ctx.ev("flipped", int((old1 != uv.ant_1_array).sum()))
        a1, a2 = uv.ant_1_array, uv.ant_2_array
        if c == "ant1<ant2":
            ok = np.all(a1 <= a2)
        elif c == "ant2<ant1":
            ok = np.all(a1 >= a2)
        else:
            ctx.ev("conj_uv")
            if use_enu:
                enu = dict(zip(uv.telescope.antenna_numbers.tolist(), uv.telescope.get_enu_antpos()))
                w = np.array([enu[y] - enu[x] for x, y in zip(a1.tolist(), a2.tolist())])
            else:
                w = uv.uvw_array
            v = w[:, 0 if c[0] == "u" else 1]
            tol = 1e-6
            ok = np.all(v < tol) if c[1] == "<" else np.all(v > -tol)
        ctx.check(bool(ok), f"conjugate_bls({c}, use_enu={use_enu}): convention not met")
        return f"conjugate_bls({c})", claims
    if kind == "freqs":
        m = gen.pick(rng, ["spw", "chan", "both", "select", "index"])
        kw = {}
        if m == "index":
            idx = rng.permutation(uv.Nfreqs)
            if uv.Nspws > 1:
                idx = np.concatenate([rng.permutation(np.nonzero(uv.flex_spw_id_array == s)[0]) for s in
                                      uv.spw_array])
            f0 = uv.freq_array[idx].copy()
            uv.reorder_freqs(channel_order=idx)
            ctx.check(np.array_equal(f0, uv.freq_array), "reorder_freqs(index): channels not as indexed")
            ctx.ev("freqs_index")
            return "reorder_freqs(index)", claims
        if m in ("spw", "both"):
            kw["spw_order"] = gen.pick(rng, ["number", "freq", "-number", "-freq"])
            if rng.integers(4) == 0:
                kw["spw_order"] = rng.permutation(uv.Nspws)
                want = np.asarray(uv.spw_array)[kw["spw_order"]].tolist()
        if m in ("chan", "both"):
            kw["channel_order"] = gen.pick(rng, ["freq", "-freq"])
        before = {int(s): uv.freq_array[uv.flex_spw_id_array == s].copy() for s in uv.spw_array}
        order0 = [int(s) for s in uv.spw_array]
        if m == "select":
            kw = {"select_spw": int(gen.pick(rng, list(uv.spw_array))), "channel_order": gen.pick(rng, ["freq", "-freq"])}
            if rng.integers(2):
                kw["select_spw"] = [kw["select_spw"]]
        uv.reorder_freqs(**kw)
        ctx.ev({"spw": "freqs_spw", "chan": "freqs_chan", "both": "freqs_spw", "select": "freqs_select"}[m])
        ids = uv.flex_spw_id_array
        seq = [int(ids[i]) for i in range(len(ids)) if i == 0 or ids[i] != ids[i - 1]]
        so = kw.get("spw_order")
        if so is not None and m != "select":
            ctx.check(len(seq) == len(set(seq)), f"reorder_freqs({kw}): windows are interleaved")
            if isinstance(so, np.ndarray):
                ctx.check(seq == [int(w) for w in want], f"spw order {seq}, wanted {want}")
            else:
                if so.endswith("number"):
                    key = list(seq)
                else:
                    key = [float(np.median(uv.freq_array[ids == s])) for s in seq]
                if so[0] == "-":
                    key = [-k for k in key]
                ctx.check(key == sorted(key), f"reorder_freqs({kw}): windows in order {seq}")
        elif so is None:
            ctx.check([int(s) for s in uv.spw_array] == order0 or sorted(order0) == sorted(seq), "windows moved")
        co = kw.get("channel_order")
        sel = np.atleast_1d(kw.get("select_spw", order0)).tolist()
        for s in order0:
            f = uv.freq_array[ids == s]
            if co is not None and s in sel:
                d = np.diff(f) * (1 if co == "freq" else -1)
                ctx.check(bool(np.all(d >= 0)), f"reorder_freqs({kw}): window {s} not in channel order")
            else:
                ctx.check(np.array_equal(f, before[s]), f"reorder_freqs({kw}): channels inside window {s} moved")
        return f"reorder_freqs({kw})", claims
    o = gen.pick(rng, ["AIPS", "CASA", "index"])
    p0 = [int(p) for p in uv.polarization_array]
    if o == "index":
        idx = rng.permutation(uv.Npols)
        uv.reorder_pols(order=idx)
        want = [p0[i] for i in idx]
    else:
        uv.reorder_pols(order=o)
        if o == "AIPS":
            want = _aips(p0)
        else:
            rank = {1: 1, 2: 2, 3: 3, 4: 4, -1: 1, -3: 2, -4: 3, -2: 4, -5: 5, -7: 6, -8: 7, -6: 8}
            want = sorted(p0, key=lambda p: rank[p])
    ctx.check([int(p) for p in uv.polarization_array] == want,
              f"reorder_pols({o}): {uv.polarization_array} for {want}")
    ctx.ev("pols_" + o)
    return f"reorder_pols({o})", claims


def _run(ctx, uv, n, meta=False):
    base = canon.oriented(uv)
    hist = uv.history
    ops = []
    sticky = True
    for _ in range(n):
        op, claims = _step(ctx, uv, meta)
        # (an order with the autos first stays until the baseline-times are sorted again)
        sticky = claims = claims if op.startswith("reorder_blts") else sticky
        ops.append(op)
        ctx.log(op)
        d = canon.dictdiff(base, canon.oriented(uv), exact=True, tols={"uvw_array": 0})
        ctx.check(not d, lambda: f"after {ops}: {d[:4]}")
        common.sane(ctx, uv, f"after {op}", claims=claims)
        want = uv.antnums_to_baseline(uv.ant_1_array, uv.ant_2_array)
        ctx.check(len(np.unique(want)) == len(np.unique(uv.baseline_array)), f"baseline numbers after {op}")
        ctx.check(np.array_equal(np.asarray(uv.baseline_array), np.asarray(want)), f"baseline numbers stale after {op}")
    common.hist_kept(ctx, hist, uv.history, "reorder")
    return ops


def s_seq(ctx):
    rng = ctx.rng
    uv = gen.make_uvdata(rng, nbl=int(rng.integers(2, 9)), pols=gen.make_pols(rng))
    if rng.integers(2):
        uv.scan_number_array = rng.integers(0, 9, uv.Nblts)
    if rng.integers(3) == 0:
        uv.eq_coeffs = rng.uniform(1, 2, (uv.telescope.Nants, uv.Nfreqs))
        uv.eq_coeffs_convention = "multiply"
    if rng.integers(6) == 0:
        uv.data_array = uv.flag_array = uv.nsample_array = None
        ctx.ev("metadata_only")
    ops = _run(ctx, uv, int(rng.integers(1, 6)))
    ctx.case(common.describe_uv(uv), ops)


def s_conj_back(ctx):
    """Conjugating the same records twice is the identity; unpaired cross pols are refused."""
    rng = ctx.rng
    uv = gen.make_uvdata(rng, pols=gen.make_pols(rng, kind=gen.pick(rng, ["lin", "circ"])))
    cross = np.nonzero(uv.ant_1_array != uv.ant_2_array)[0]
    if len(cross) == 0:
        raise Skip("autos only")
    idx = np.sort(rng.choice(cross, int(rng.integers(1, len(cross) + 1)), replace=False))
    before = canon.snap(uv)
    uv.conjugate_bls(idx)
    uv.conjugate_bls(idx)
    d = canon.diff(before, canon.snap(uv, deep=False), exact=True,
                   ignore=("blt_order", "blts_are_rectangular", "time_axis_faster_than_bls"))
    ctx.check(not d, lambda: f"conjugating twice: {d[:4]}")
    ctx.case(common.describe_uv(uv), len(idx))
    ctx.ev("conj_back")
    # only one of a cross-pol pair
    p = int(gen.pick(rng, [-3, -4, -7, -8]))
    uv2 = gen.make_uvdata(rng, pols=np.array([p]), autos=False)
    b = canon.snap(uv2)
    conv = "ant1<ant2" if np.any(uv2.ant_1_array > uv2.ant_2_array) else "ant2<ant1"
    ctx.raises(ValueError, lambda: uv2.conjugate_bls(conv), "conjugating an unpaired cross pol")
    d = canon.diff(b, canon.snap(uv2, deep=False), exact=True)
    ctx.check(not d, lambda: f"refused conjugation changed the object: {d[:4]}")


def s_bad(ctx):
    """Index arrays that are not permutations of the axis length are refused."""
    rng = ctx.rng
    uv = gen.make_uvdata(rng)
    before = canon.snap(uv)
    k = gen.pick(rng, ["len", "float", "minor", "name", "pol", "spw", "conjname"])
    fn = {
        "len": lambda: uv.reorder_blts(order=np.arange(uv.Nblts + 1)),
        "float": lambda: uv.reorder_blts(order=np.arange(uv.Nblts) * 1.0),
        "minor": lambda: uv.reorder_blts(order="baseline", minor_order="ant1"),
        "name": lambda: uv.reorder_blts(order="frequency"),
        "pol": lambda: uv.reorder_pols(order=np.arange(uv.Npols) + 1),
        "spw": lambda: uv.reorder_freqs(spw_order=np.arange(uv.Nspws) + 1),
        "conjname": lambda: uv.conjugate_bls("w<0"),
    }[k]
    ctx.case(k, common.describe_uv(uv))
    ctx.raises((ValueError, IndexError), fn, k)
    d = canon.diff(before, canon.snap(uv, deep=False), exact=True)
    ctx.check(not d, lambda: f"refused {k} changed the object: {d[:4]}")


def s_determine(ctx):
    """The order and the rectangularity the library works out itself are the true ones."""
    rng = ctx.rng
    uv = gen.make_uvdata(rng, **({} if rng.integers(2) else {"layout": "regular"} if False else {}))
    for _ in range(int(rng.integers(0, 3))):
        if rng.integers(2):
            kw = {}
            o = gen.pick(rng, ["time", "baseline", "ant1", "ant2"])
            if o != "baseline" and rng.integers(2):
                kw["minor_order"] = gen.pick(rng, [m for m in ["time", "baseline", "ant1", "ant2"] if m != o])
            uv.reorder_blts(order=o, **kw)
        elif rng.integers(2):
            uv.select(blt_inds=np.sort(rng.choice(uv.Nblts, int(rng.integers(1, uv.Nblts + 1)), replace=False)))
        else:
            uv.reorder_blts(order=rng.permutation(uv.Nblts))
    told = uv.blt_order
    before = canon.snap(uv)
    if rng.integers(4) or told is None:
        uv.blt_order = None
        got = uv.determine_blt_order()
        ctx.check(got == uv.blt_order, "the returned order is not the one set")
        cols = {"time": uv.time_array, "baseline": uv.baseline_array, "ant1": uv.ant_1_array, "ant2": uv.ant_2_array}
        holds = [k for k, v in cols.items() if np.all(v[1:] >= v[:-1])]
        if got is None:
            ctx.check(not holds, lambda: f"no order found, but the data are in order of {holds}: {[v.tolist() for v in cols.values()]} {uv.Nbls}")
            ctx.ev("order_none")
        else:
            p = canon.blt_claims(uv)
            p = [x for x in p if "blt_order" in x]
            ctx.check(not p, lambda: f"determine_blt_order: {p}")
            ctx.ev("order_" + "_".join(got))
    else:
        ctx.check(tuple(uv.determine_blt_order()) == tuple(told), "determine_blt_order changed the order of the object")
    ctx.case("determine", uv.blt_order, common.describe_uv(uv))
    uv.blts_are_rectangular = uv.time_axis_faster_than_bls = None
    uv.set_rectangularity(force=True)
    pairs = list(zip(uv.ant_1_array.tolist(), uv.ant_2_array.tolist()))
    nt, nb = len(set(uv.time_array.tolist())), len(set(pairs))
    rect = {}
    for fast in (True, False):
        ok = nt * nb == uv.Nblts
        if ok:
            a, b = (nb, nt) if fast else (nt, nb)
            T = uv.time_array.reshape(a, b)
            B = np.array([hash(x) for x in pairs]).reshape(a, b)
            ok = bool(np.all(T == T[:1]) and np.all(B == B[:, :1])) if fast else bool(np.all(T == T[:, :1]) and np.all(B == B[:1]))
        rect[fast] = ok
    ctx.check(uv.blts_are_rectangular == any(rect.values()), lambda: f"rectangular: {uv.blts_are_rectangular}, in fact {rect}")
    if uv.blts_are_rectangular:
        ctx.ev("rectangular")
        ctx.check(rect[bool(uv.time_axis_faster_than_bls)], lambda: f"time fastest: {uv.time_axis_faster_than_bls}, in fact {rect}")
    else:
        ctx.ev("not_rectangular")
        ctx.check(not uv.time_axis_faster_than_bls, "time fastest, but not rectangular")
    d = canon.diff(before, uv, ignore={"blt_order", "blts_are_rectangular", "time_axis_faster_than_bls"})
    ctx.check(not d, lambda: f"working out the order changed the object: {d[:4]}")


SCENARIOS = [
    Scenario("determine", s_determine, 400, 6000),
    Scenario("seq", s_seq, 1200, 20000),
    Scenario("conj_back", s_conj_back, 150, 2000),
    Scenario("bad", s_bad, 100, 1000),
]
