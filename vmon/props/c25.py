"""C25 Collapsing arrays and index sets."""
import numpy as np

from pyuvdata.utils import array_collapse as ac
from pyuvdata.utils import tools
from vmon import gen
from vmon.core import Scenario

RULE = (
    "random arrays of 1-4 dimensions with infinities, zero weights, fully masked lanes, every axis set and algorithm, compared with a loop over the samples; "
    "random index patterns (runs, steps, reversed, repeated, unordered, boolean) converted to slices and applied; non-trivial = distinct array/pattern"
)
REQUIRED = ["mean", "absmean", "quadmean", "or", "and", "empty_lane", "weighted", "weights_square", "axis_tuple", "axis_none", "has_inf", "complex", "slices", "single_slice",
            "bool_index", "reversed", "fail_index", "slicify", "spacing", "overlap_yes", "overlap_no", "bool_refused"]


def _lanes(shape, axis):
    """(output index, list of flat input indices) for a collapse over axis"""
    nd = len(shape)
    ax = tuple(range(nd)) if axis is None else tuple(a % nd for a in ((axis,) if np.isscalar(axis) else axis))
    keep = [i for i in range(nd) if i not in ax]
    out = {}
    for idx in np.ndindex(*shape):
        out.setdefault(tuple(idx[i] for i in keep), []).append(idx)
    return out, tuple(shape[i] for i in keep)


def s_collapse(ctx):
    rng = ctx.rng
    nd = int(rng.integers(1, 5))
    shape = tuple(int(x) for x in rng.integers(1, 5, nd))
    k = int(rng.integers(0, nd + 1))
    axis = None if k == 0 else tuple(int(a) for a in rng.choice(nd, k, replace=False))
    if axis is not None and rng.integers(3) == 0:
        axis = tuple(a - nd for a in axis)
    if axis is not None and len(axis) == 1 and rng.integers(2):
        axis = axis[0]
    ctx.ev("axis_none" if axis is None else ("axis_tuple" if not np.isscalar(axis) else "axis_int"))
    alg = gen.pick(rng, ["mean", "absmean", "quadmean", "or", "and"])
    kw = {}
    if alg in ("or", "and"):
        arr = rng.random(shape) < gen.pick(rng, [0.1, 0.5, 0.9])
    else:
        arr = rng.normal(size=shape) * 10
        if rng.integers(4) == 0:
            arr = arr + 1j * rng.normal(size=shape)
            ctx.ev("complex")
        if rng.integers(2):
            arr[rng.random(shape) < 0.25] = np.inf
            if np.isinf(arr).any():
                ctx.ev("has_inf")
        if rng.integers(2):
            w = rng.integers(0, 4, shape).astype(float) * gen.pick(rng, [1.0, 0.5, 1e-6, 1e3])
            kw["weights"] = w
            ctx.ev("weighted")
    rw, rw2 = bool(rng.integers(2)), bool(rng.integers(2))
    if alg in ("or", "and"):
        rw2 = False
    ctx.case(alg, shape, axis, list(kw), rw, rw2, arr.ravel()[:3])
    a0 = arr.copy()
    w0 = kw["weights"].copy() if "weights" in kw else None
    fn = gen.pick(rng, ["collapse", "direct"])
    if fn == "collapse":
        res = ac.collapse(arr, alg, axis=axis, return_weights=rw, return_weights_square=rw2, **kw)
    else:
        res = getattr(ac, alg + "_collapse")(arr, axis=axis, return_weights=rw, return_weights_square=rw2, **kw)
    ctx.ev(alg)
    ctx.check(np.array_equal(arr, a0) and (w0 is None or np.array_equal(w0, kw["weights"])), f"{alg}: the caller's array or weights were modified")
    res = list(res) if (rw or rw2) else [res]
    lanes, oshape = _lanes(shape, axis)
    out = np.asarray(res[0])
    ctx.check(out.shape == oshape, f"{alg}: shape {out.shape}, not {oshape}")
    wout = np.asarray(res[1]) if rw else None
    w2out = np.asarray(res[-1]) if rw2 else None
    if rw2:
        ctx.ev("weights_square")
    for o, ids in lanes.items():
        vals = [arr[i] for i in ids]
        if alg == "or":
            want, ww, ww2 = any(vals), 1.0, None
        elif alg == "and":
            want, ww, ww2 = all(vals), 1.0, None
        else:
            ws = [1.0 if w0 is None else w0[i] for i in ids]
            ws = [0.0 if np.isinf(v) else w for v, w in zip(vals, ws)]
            f = {"mean": lambda v: v, "absmean": abs, "quadmean": lambda v: abs(v) ** 2}[alg]
            ww, ww2 = sum(ws), sum(x * x for x in ws)
            if ww == 0:
                want = np.inf
                ctx.ev("empty_lane")
            else:
                want = sum(w * f(v) for v, w in zip(vals, ws) if w) / ww
                if alg == "quadmean":
                    want = np.sqrt(want)
        got = out[o]
        ctx.check(got == want or np.isclose(got, want, rtol=1e-10, atol=1e-10), lambda: f"{alg} over {axis} of shape {shape}: lane {o}: {got!r}, not {want!r}")
        if rw:
            ctx.check(np.isclose(wout[o], ww, rtol=1e-12, atol=0), lambda: f"{alg}: weight of lane {o}: {wout[o]!r}, not {ww!r}")
        if rw2:
            ctx.check(np.isclose(w2out[o], ww2, rtol=1e-12, atol=0), lambda: f"{alg}: squared weight of lane {o}: {w2out[o]!r}, not {ww2!r}")
    if alg in ("or", "and") and rng.integers(4) == 0:
        ctx.raises(ValueError, lambda: ac.collapse(arr.astype(float), alg), f"{alg} of a float array")
        ctx.raises(ValueError, lambda: ac.collapse(arr, "median"), "unknown algorithm")
        ctx.ev("bool_refused")


def _pattern(ctx, rng, n):
    k = gen.pick(rng, ["runs", "random", "step", "rev", "rand_order", "repeat", "sorted", "single", "two", "mix"])
    if k == "runs":
        x = []
        p = 0
        for _ in range(int(rng.integers(1, 5))):
            p += int(rng.integers(0, 5))
            m = int(rng.integers(1, 8))
            x += list(range(p, p + m))
            p += m
        x = [i for i in x if i < n]
    elif k == "random":
        x = list(rng.integers(0, n, int(rng.integers(1, 20))))
    elif k == "step":
        x = list(range(int(rng.integers(0, n)), n, int(rng.integers(1, 6))))
    elif k == "rev":
        x = list(range(int(rng.integers(0, n)), -1, -int(rng.integers(1, 4))))
        ctx.ev("reversed")
    elif k == "rand_order":
        x = list(rng.permutation(n)[: int(rng.integers(1, n))])
    elif k == "repeat":
        x = [int(rng.integers(n))] * int(rng.integers(1, 5))
    elif k == "sorted":
        x = sorted(rng.choice(n, int(rng.integers(1, n)), replace=False).tolist())
    elif k == "single":
        x = [int(rng.integers(n))]
    elif k == "two":
        x = list(rng.integers(0, n, 2))
    else:
        x = _pattern(ctx, rng, n) + _pattern(ctx, rng, n) if n > 2 else [0]
    x = [int(i) for i in x]
    return x or [0]


def s_slices(ctx):
    rng = ctx.rng
    n = int(rng.integers(2, 60))
    idx = _pattern(ctx, rng, n)
    data = np.arange(n) * 7 + 1
    form = gen.pick(rng, ["list", "array", "bool"])
    inp = idx
    if form == "array":
        inp = np.array(idx)
    elif form == "bool":
        inp = np.zeros(n, bool)
        inp[idx] = True
        idx = sorted(set(idx))
        ctx.ev("bool_index")
    kw = {}
    if rng.integers(2):
        kw["max_nslice_frac"] = float(rng.random())
    if rng.integers(3) == 0:
        kw["max_nslice"] = int(rng.integers(1, 5))
    if rng.integers(2):
        kw["return_index_on_fail"] = True
    ctx.case(form, idx, sorted(kw.items()))
    dup = len(set(idx)) != len(idx)
    any_repeat = any(a == b for a, b in zip(idx, idx[1:]))
    if any_repeat:
        ctx.ev("repeated")
        return  # a slice cannot repeat an element; repeated neighbours are not claimed
    sl, ok = tools._convert_to_slices(inp, **kw)
    ctx.ev("slices")
    if ok and len(sl) == 1:
        ctx.ev("single_slice")
    if not ok and kw.get("return_index_on_fail"):
        ctx.check(len(sl) == 1 and np.array_equal(np.asarray(sl[0]), np.asarray(inp)), "the indices were not handed back on failure")
        ctx.ev("fail_index")
    else:
        got = [int(v) for s in sl for v in data[s]]
        want = [int(data[i]) for i in idx]
        ctx.check(got == want, lambda: f"indices {idx} -> slices {sl} select {[(g - 1) // 7 for g in got]}")
        if not ok and len(idx) > 2:
            lim = kw.get("max_nslice", kw.get("max_nslice_frac", 0.1) * len(idx))
            ctx.check(len(sl) > lim, f"{len(sl)} slices reported as too many for limit {lim}")
    if not dup:
        s = tools.slicify(inp if form != "bool" else idx)
        got = data[s] if isinstance(s, slice) else data[np.asarray(s)]
        ctx.check(got.tolist() == [int(data[i]) for i in idx], lambda: f"slicify({idx}) = {s} selects {got.tolist()}")
        ctx.ev("slicify")


def s_tools(ctx):
    rng = ctx.rng
    n = int(rng.integers(1, 12))
    base, step = rng.uniform(-50, 50), rng.uniform(0.1, 5) * gen.pick(rng, [-1, 1])
    a = base + step * np.arange(n)
    tol = gen.pick(rng, [1e-3, 1e-2])
    pert = gen.pick(rng, [0.0, tol * 0.1, tol * 10])
    if n > 2:
        a[int(rng.integers(n))] += pert * gen.pick(rng, [-1, 1])
    ctx.case("spacing", a, tol, pert)
    ctx.ev("spacing")
    want = n <= 2 or pert < tol
    ctx.check(bool(tools._test_array_constant_spacing(a, tols=(0, tol))) == want, f"constant spacing of {a} within {tol}")
    c = np.full(n, base)
    c[int(rng.integers(n))] += pert
    ctx.check(bool(tools._test_array_constant(c, tols=(0, tol))) == (n <= 1 or pert < tol), f"constancy of {c} within {tol}")
    # range overlap: any common interior point
    m = int(rng.integers(1, 7))
    st = rng.integers(0, 20, m).astype(float)
    r = np.stack([st, st + rng.integers(0, 6, m)], axis=1)
    if rng.integers(2):  # make them disjoint
        e = np.cumsum(rng.integers(1, 4, 2 * m)).astype(float).reshape(m, 2)
        r = e[rng.permutation(m)]
        if rng.integers(2) and m > 1:
            o = np.argsort(r[:, 0])
            r[o[0], 1] = r[o[1], 0]  # touching is not overlapping
    over = any(min(x[1], y[1]) > max(x[0], y[0]) or (x[0] == x[1] and y[0] < x[0] < y[1]) or (y[0] == y[1] and x[0] < y[0] < x[1])
               for i, x in enumerate(r) for y in r[i + 1:])
    degen = bool(np.any(r[:, 0] == r[:, 1]))
    got = bool(tools._check_range_overlap(r))
    if not degen:
        ctx.check(got == over, f"overlap of {r.tolist()} reported as {got}")
        ctx.ev("overlap_yes" if over else "overlap_no")
    bad = r.copy()
    bad[0] = [5.0, 4.0]
    ctx.raises(ValueError, lambda: tools._check_range_overlap(bad), "range that ends before it starts")


SCENARIOS = [
    Scenario("collapse", s_collapse, 6000, 120000),
    Scenario("slices", s_slices, 8000, 200000),
    Scenario("tools", s_tools, 2000, 30000),
]
