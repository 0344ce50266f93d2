"""C14 Access by key always reaches the right measurements."""
import numpy as np

from vmon import canon, gen
from vmon.core import Scenario, Skip
from vmon.props import common

RULE = (
    "random objects driven through random histories (select, reorder, conjugate, concatenate, resample, re-read, "
    "attribute replacement, copies), with keyed queries before and after every operation so that index caches are "
    "warm; every query is compared with a brute-force search; non-trivial = distinct (object, history)"
)
REQUIRED = ["q_antpair", "q_reversed", "q_antpairpol", "q_blnum", "q_polnum", "q_polstr", "q_absent", "q_set",
            "q_iter", "q_both_orient", "q_set_refused", "op_concat", "op_assign", "op_reread", "op_downsample",
            "op_upsample", "op_select", "op_reorder", "op_conj", "op_copy", "op_favg"]

NAMES = {1: "pI", 2: "pQ", 3: "pU", 4: "pV", -1: "rr", -2: "ll", -3: "rl", -4: "lr",
         -5: "xx", -6: "yy", -7: "xy", -8: "yx"}


def _rows(uv, a, b):
    a1, a2 = uv.ant_1_array, uv.ant_2_array
    return np.nonzero((a1 == a) & (a2 == b))[0]


def _expect(uv, arr, a, b, pol, conj):
    """brute force: rows of (a, b), then reversed rows of (b, a)."""
    pols = [int(p) for p in uv.polarization_array]
    f = np.conj if conj else (lambda x: x)
    if pol is None:
        pi = list(range(len(pols)))
        try:
            pj = [pols.index(canon.CONJ_POL.get(p, p)) for p in pols]
        except ValueError:
            pj = None
    else:
        pi = [pols.index(pol)] if pol in pols else None
        cp = canon.CONJ_POL.get(pol, pol)
        pj = [pols.index(cp)] if cp in pols else None
    r1, r2 = _rows(uv, a, b), (_rows(uv, b, a) if a != b else np.zeros(0, int))
    parts = []
    if len(r1) and pi is not None:
        parts.append(arr[r1][:, :, pi])
    if len(r2) and pj is not None:
        parts.append(f(arr[r2][:, :, pj]))
    both = bool(len(r1) and len(r2))
    if not parts:
        return None, None, both
    rows = np.concatenate([r1 if (len(r1) and pi is not None) else [], r2 if (len(r2) and pj is not None) else []])
    return np.concatenate(parts, axis=0), rows.astype(int), both


def _query(ctx, uv, n=4):
    rng = ctx.rng
    pairs = sorted(set(zip(uv.ant_1_array.tolist(), uv.ant_2_array.tolist())))
    pols = [int(p) for p in uv.polarization_array]
    got_pairs = uv.get_antpairs()
    ctx.check(sorted(got_pairs) == pairs, f"get_antpairs {got_pairs} for {pairs}")
    ctx.check(sorted(uv.get_ants().tolist()) == sorted({x for p in pairs for x in p}), "get_ants")
    ctx.check(sorted(uv.get_baseline_nums().tolist()) == sorted(set(uv.baseline_array.tolist())), "get_baseline_nums")
    for _ in range(n):
        kind = gen.pick(rng, ["antpair", "antpair", "antpairpol", "antpairpol", "blnum", "pol", "absent", "ind"])
        arrname, getter = gen.pick(rng, [("data_array", uv.get_data), ("flag_array", uv.get_flags),
                                         ("nsample_array", uv.get_nsamples)])
        arr = getattr(uv, arrname)
        a, b = gen.pick(rng, pairs)
        if kind in ("antpair", "antpairpol", "ind") and rng.integers(2):
            a, b = b, a
        if kind == "ind":
            for ordered in (True, False):
                ind = uv.antpair2ind(a, b, ordered=ordered) if rng.integers(2) else uv.antpair2ind((a, b), ordered=ordered)
                w = _rows(uv, a, b)
                if not ordered and a != b:
                    w = np.append(w, _rows(uv, b, a))
                g = np.zeros(0, int) if ind is None else np.arange(uv.Nblts)[ind]
                ctx.check(np.array_equal(g, w), f"antpair2ind({a},{b},ordered={ordered}) -> {g} not {w}")
            continue
        if kind in ("antpair", "antpairpol"):
            pol = None
            key = [a, b]
            if kind == "antpairpol":
                pol = int(gen.pick(rng, pols))
                if (a, b) not in pairs:
                    pol = canon.CONJ_POL.get(pol, pol)
                key.append(NAMES[pol] if rng.integers(2) else pol)
            exp, rows, both = _expect(uv, arr, a, b, pol, True)
            if both:
                ctx.ev("q_both_orient")
            if (a, b) not in pairs:
                ctx.ev("q_reversed")
            ctx.ev("q_" + kind)
            call = (tuple(key),) if rng.integers(2) else tuple(key)
            if exp is None:
                ctx.raises((KeyError, ValueError), lambda: getter(*call), f"{arrname} by {key}")
                continue
            if (a, b) not in pairs and pol is None and len(exp) == 0:
                continue
            sq = gen.pick(rng, ["default", "none", "full"])
            out = getter(*call, squeeze=sq, force_copy=bool(rng.integers(2)))
            e = exp
            if sq == "default" and e.shape[2] == 1:
                e = e[:, :, 0]
            elif sq == "full":
                e = np.squeeze(e)
            ctx.check(out.shape == e.shape and np.array_equal(out, e),
                      lambda: f"{arrname} by key {key} squeeze={sq}: shape {out.shape} vs {e.shape} or values differ")
            t = uv.get_times(*call)
            ctx.check(np.array_equal(t, uv.time_array[rows]), lambda: f"get_times {key}: {t} vs {uv.time_array[rows]}")
            ctx.check(np.array_equal(uv.get_lsts(*call), uv.lst_array[rows]), f"get_lsts {key}")
        elif kind == "blnum":
            i = int(rng.integers(uv.Nblts))
            bl = int(uv.baseline_array[i])
            if bl < 5:
                continue
            a, b = int(uv.ant_1_array[i]), int(uv.ant_2_array[i])
            exp, rows, both = _expect(uv, arr, a, b, None, True)
            out = getter(bl, squeeze="none")
            ctx.check(out.shape == exp.shape and np.array_equal(out, exp), f"{arrname} by baseline number {bl}")
            ctx.check(np.array_equal(uv.get_times(bl), uv.time_array[rows]), f"get_times by baseline number {bl}")
            ctx.ev("q_blnum")
        elif kind == "pol":
            p = int(gen.pick(rng, pols))
            if rng.integers(2):
                out = getter(p, squeeze="none")
                ctx.ev("q_polnum")
            else:
                out = getter(NAMES[p], squeeze="none")
                ctx.ev("q_polstr")
            e = arr[:, :, [pols.index(p)]]
            ctx.check(out.shape == e.shape and np.array_equal(out, e), f"{arrname} by polarization {p}")
        else:
            nums = uv.telescope.antenna_numbers.tolist()
            cand = [(x, y) for x in nums for y in nums if (x, y) not in pairs and (y, x) not in pairs]
            if not cand:
                continue
            x, y = gen.pick(rng, cand)
            ctx.raises(KeyError, lambda: getter(x, y), f"absent pair {(x, y)}")
            ctx.check(uv.antpair2ind(x, y) is None, "antpair2ind of an absent pair")
            ctx.ev("q_absent")


def _set(ctx, uv):
    rng = ctx.rng
    pairs = sorted(set(zip(uv.ant_1_array.tolist(), uv.ant_2_array.tolist())))
    pols = [int(p) for p in uv.polarization_array]
    arrname, setter, getter = gen.pick(rng, [
        ("data_array", uv.set_data, uv.get_data), ("flag_array", uv.set_flags, uv.get_flags),
        ("nsample_array", uv.set_nsamples, uv.get_nsamples)])
    a, b = gen.pick(rng, pairs)
    r = _rows(uv, a, b)
    key, pi = [a, b], list(range(uv.Npols))
    k = gen.pick(rng, ["pair", "pairpol", "pol"])
    if k == "pairpol":
        p = int(gen.pick(rng, pols))
        key, pi = [a, b, NAMES[p] if rng.integers(2) else p], [pols.index(p)]
    elif k == "pol":
        p = int(gen.pick(rng, pols))
        key, pi, r = [NAMES[p]], [pols.index(p)], np.arange(uv.Nblts)
    shape = (len(r), uv.Nfreqs, len(pi))
    if arrname == "data_array":
        val = (rng.standard_normal(shape) + 1j * rng.standard_normal(shape)).astype(uv.data_array.dtype)
    elif arrname == "flag_array":
        val = rng.random(shape) < 0.5
    else:
        val = rng.random(shape).astype(uv.nsample_array.dtype)
    before = {n: getattr(uv, n).copy() for n in ("data_array", "flag_array", "nsample_array")}
    if k != "pol" and a != b and (b, a) in pairs:
        # the key is also present in reverse: refused, or rejected as ambiguous
        ctx.raises(ValueError, lambda: setter(val, *key), "set by an ambiguous key")
        for n in before:
            ctx.check(np.array_equal(before[n], getattr(uv, n)), "refused set changed the data")
        ctx.ev("q_set_refused")
        return
    setter(val, *key)
    exp = before[arrname].copy()
    exp[np.ix_(r, np.arange(uv.Nfreqs), pi)] = val
    for n in before:
        e = exp if n == arrname else before[n]
        ctx.check(np.array_equal(getattr(uv, n), e), f"set {arrname} by {key}: {n} is not what was set")
    ctx.check(np.array_equal(getter(*key, squeeze="none"), val), f"get after set {key}")
    ctx.ev("q_set")
    if k == "pair" and a != b:
        ctx.raises(ValueError, lambda: setter(val, b, a), "set by the reversed key")
        ctx.raises(ValueError, lambda: setter(val[:, :-1], a, b), "set with a wrong shape")
        ctx.check(np.array_equal(getattr(uv, arrname), exp), "refused set changed the data")
        ctx.ev("q_set_refused")


def _iter(ctx, uv):
    pols = [int(p) for p in uv.polarization_array]
    pairs = sorted(set(zip(uv.ant_1_array.tolist(), uv.ant_2_array.tolist())))
    if any(p[::-1] in pairs for p in pairs if p[0] != p[1]):
        return
    num = {NAMES[p]: p for p in pols}
    num.update({k.upper(): v for k, v in list(num.items())})
    seen = set()
    tot = 0
    for key, d in uv.antpairpol_iter(squeeze="none"):
        ctx.check(key not in seen, f"{key} visited twice")
        seen.add(key)
        p = key[2]
        if p not in num:
            en = {"east": {"e": "x", "n": "y"}, "north": {"n": "x", "e": "y"}}[uv.telescope.x_orientation]
            p = "".join(en[c] for c in p.lower())
        exp, _, _ = _expect(uv, uv.data_array, key[0], key[1], num[p], True)
        ctx.check(np.array_equal(exp, d), f"iteration over {key}")
        tot += d.size
    ctx.check(tot == uv.data_array.size, f"iteration visited {tot} of {uv.data_array.size} samples")
    ctx.ev("q_iter")


def _op(ctx, uv):
    rng = ctx.rng
    op = gen.pick(rng, ["select", "reorder", "conj", "conj_some", "pol", "freq", "concat", "assign", "reread", "downsample",
                        "upsample", "copy", "favg", "reorder_autos", "phase"])
    if op in ("select", "reorder", "conj", "pol", "freq", "phase"):
        common.random_ops(ctx, uv, n=1, allow=(op,))
        return uv
    pols = set(int(p) for p in uv.polarization_array)
    closed = all(canon.CONJ_POL.get(p, p) in pols for p in pols)
    if op == "reorder_autos":
        uv.reorder_blts(order=gen.pick(rng, ["time", "baseline"]), autos_first=True)
    elif op == "conj_some":
        if not closed:
            return uv
        idx = np.nonzero((rng.random(uv.Nblts) < 0.4) & (uv.ant_1_array != uv.ant_2_array))[0]
        if len(idx):
            uv.conjugate_bls(idx)
    elif op == "concat":
        t = np.unique(uv.time_array)
        if len(t) < 2 or uv.Nblts < 2:
            return uv
        c = int(rng.integers(1, len(t)))
        if (t[c] - t[c - 1]) * 86400 < 0.005:
            return uv  # (times are selected within a tolerance)
        p1 = uv.select(times=t[:c], inplace=False)
        p2 = uv.select(times=t[c:], inplace=False)
        m = int(rng.integers(3))
        if m == 0:
            uv = p1 + p2
        elif m == 1:
            p1.fast_concat(p2, "blt", inplace=True)
            uv = p1
        else:
            p2 += p1
            uv = p2
    elif op == "assign":
        # a user replacing whole arrays
        perm = rng.permutation(uv.Nblts)
        for a in canon.BLT1 + ["phase_center_id_array", "data_array", "flag_array", "nsample_array"]:
            v = getattr(uv, a)
            if v is not None:
                setattr(uv, a, v[perm])
        uv.blt_order = None
        uv.set_rectangularity(force=True)
    elif op == "reread":
        fn = ctx.path("r.uvh5")
        uv.write_uvh5(fn, clobber=True)
        other = gen.make_uvdata(rng)
        other.get_data(int(other.ant_1_array[0]), int(other.ant_2_array[0]))
        other.read(fn)
        uv = other
    elif op == "downsample":
        if uv.Ntimes < 3 or np.unique(uv.phase_center_id_array).size > 1 or np.unique(uv.integration_time).size > 1 or np.ptp(np.diff(np.unique(uv.time_array))) > 1e-6:
            return uv
        uv.downsample_in_time(n_times_to_avg=2)
    elif op == "upsample":
        if uv.Nblts > 60:
            return uv
        uv.upsample_in_time(max_int_time=float(np.max(uv.integration_time)) * 0.6)
    elif op == "favg":
        if min(np.sum(uv.flex_spw_id_array == s) for s in uv.spw_array) < 2:
            return uv
        uv.frequency_average(n_chan_to_avg=2)
    elif op == "copy":
        old = uv
        uv = uv.copy()
        # the original and the copy must not share an index cache
        if rng.integers(2):
            old.reorder_blts(order=rng.permutation(old.Nblts))
        else:
            old.select(blt_inds=[0])
    ctx.ev("op_" + op)
    ctx.log(op)
    return uv


def s_hist(ctx):
    rng = ctx.rng
    uv = gen.make_uvdata(rng, nbl=int(rng.integers(2, 8)), kinds=["sidereal", "unprojected"],
                         uniform_time=bool(rng.integers(3)), real_autos=True)
    _query(ctx, uv, 4)
    ops = []
    for _ in range(int(rng.integers(1, 5))):
        try:
            uv = _op(ctx, uv)
        except NotImplementedError:
            raise Skip("op")
        _query(ctx, uv, 4)
        if rng.integers(2):
            _set(ctx, uv)
        if rng.integers(3) == 0:
            _iter(ctx, uv)
        if not np.array_equal(uv.data_array[uv.ant_1_array == uv.ant_2_array].imag * 0, uv.data_array[uv.ant_1_array == uv.ant_2_array].imag):
            # keep auto-correlations real so that later checks accept the object
            m = uv.ant_1_array == uv.ant_2_array
            uv.data_array[m] = uv.data_array[m].real
    ctx.case(common.describe_uv(uv), ctx.trace)


SCENARIOS = [Scenario("hist", s_hist, 1400, 20000)]
