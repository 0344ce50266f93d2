"""C21 Baseline numbers and antenna strings."""
import numpy as np

from pyuvdata import UVFlag, utils
from vmon import gen
from vmon.core import Scenario

RULE = (
    "antenna pairs drawn from every numbering range and its boundaries (scalars, lists, arrays, strided arrays, 1 to thousands of pairs), "
    "converted under every convention and back; antenna strings generated from a grammar and evaluated by an independent reading of the tutorial; "
    "non-trivial = distinct set of pairs / distinct string and object"
)
REQUIRED = ["conv_256", "conv_2048", "conv_2147483648", "conv_miriad", "scalar", "array", "strided", "refused", "flip", "parse", "parse_minus", "parse_pol",
            "parse_groups", "parse_orient", "mismatch_refused", "uvflag_parse", "object_methods"]

EDGE = [0, 1, 2, 127, 128, 254, 255, 256, 257, 511, 2046, 2047, 2048, 2049, 4095, 65535, 65536, 2**22, 2**31 - 2, 2**31 - 1]


def _ref(a1, a2, nants, attempt256, miriad):
    """the documented formulas, in exact python integers"""
    a1, a2 = [int(x) for x in a1], [int(x) for x in a2]
    mx = max(a1 + a2)
    if miriad:
        return "miriad", [256 * i + j if j <= 255 else 2048 * i + j + 2**16 for i, j in zip(a1, a2)]
    if attempt256 and mx < 256:
        return "256", [256 * i + j for i, j in zip(a1, a2)]
    if mx < 2048 and not (nants is not None and nants > 2048):
        return "2048", [2048 * i + j + 2**16 for i, j in zip(a1, a2)]
    return "2147483648", [2**31 * i + j + 2**16 + 2**22 for i, j in zip(a1, a2)]


def s_pairs(ctx):
    rng = ctx.rng
    top = gen.pick(rng, [10, 256, 257, 2048, 2049, 100000, 2**31])
    n = int(gen.pick(rng, [1, 1, 2, 5, 40, 700]))

    def ants():
        a = rng.integers(0, top, n)
        e = [x for x in EDGE if x < top]
        for i in range(n):
            if rng.integers(3) == 0:
                a[i] = gen.pick(rng, e)
        return a

    a1, a2 = ants(), ants()
    nants = gen.pick(rng, [2, 128, 2048, 2049, 5000, None]) if rng.integers(8) else 2147483648
    att, mir = bool(rng.integers(2)), bool(rng.integers(6) == 0)
    if mir:
        if top > 2048:
            a1, a2 = a1 % 2048, a2 % 2048
        # the convention is only defined for ordered, 1-based numbers
        a1, a2 = np.minimum(a1, a2), np.maximum(a1, a2)
        a1, a2 = np.maximum(a1, 1), np.maximum(a2, 1)
    form = gen.pick(rng, ["scalar", "list", "array", "strided", "int32", "tuple"])
    ctx.case(form, n, top, nants, att, mir, a1[:4], a2[:4])
    if form == "scalar":
        i1, i2 = int(a1[0]), int(a2[0])
        a1, a2 = a1[:1], a2[:1]
        ctx.ev("scalar")
    elif form == "list":
        i1, i2 = a1.tolist(), a2.tolist()
    elif form == "tuple":
        i1, i2 = tuple(a1.tolist()), tuple(a2.tolist())
    elif form == "strided":
        i1, i2 = np.repeat(a1, 3)[::3], np.stack([a2, a2 + 1], 1)[:, 0]
        ctx.ev("strided")
    elif form == "int32":
        i1, i2 = a1.astype(np.int32 if top < 2**31 else np.int64), a2.astype(np.uint32)
    else:
        i1, i2 = a1, a2
        ctx.ev("array")
    b1, b2 = a1.copy(), a2.copy()
    kind, want = _ref(a1, a2, nants, att, mir)
    ctx.ev("conv_" + kind)
    got = utils.antnums_to_baseline(i1, i2, Nants_telescope=nants, attempt256=att, use_miriad_convention=mir)
    g = [int(x) for x in np.atleast_1d(got)]
    ctx.check(np.isscalar(got) == (form == "scalar") or isinstance(got, int), "scalar in, scalar out")
    ctx.check(g == want, lambda: f"{kind} numbers {g[:5]} != {want[:5]} for {list(zip(a1, a2))[:5]}")
    ctx.check(np.array_equal(a1, b1) and np.array_equal(a2, b2), "inputs modified")
    pairs = list(zip(a1.tolist(), a2.tolist()))
    ctx.check(len(set(pairs)) == len(set(g)), "distinct pairs share a number")
    nn = 2 if nants is None else nants
    if kind != "miriad":
        r1, r2 = utils.baseline_to_antnums(got, Nants_telescope=nn)
        ctx.check(np.atleast_1d(r1).tolist() == a1.tolist() and np.atleast_1d(r2).tolist() == a2.tolist(),
                  lambda: f"{kind}: back to pairs gives {np.atleast_1d(r1)[:4]},{np.atleast_1d(r2)[:4]} for {pairs[:4]}")
        if not (att or kind == "256"):
            f = utils.bls.baseline_index_flip(got, Nants_telescope=nn)
            rf1, rf2 = utils.baseline_to_antnums(f, Nants_telescope=nn)
            ctx.check(np.atleast_1d(rf1).tolist() == a2.tolist() and np.atleast_1d(rf2).tolist() == a1.tolist(), "flipping a baseline number does not exchange its antennas")
            ctx.ev("flip")
        # conversions of the numbers one at a time agree when all use one range
        lim = {"256": 0, "2048": 2**16, "2147483648": 2**16 + 2**22}[kind]
        for b, p in list(zip(g, pairs))[:6]:
            if b >= lim:
                q = utils.baseline_to_antnums(b, Nants_telescope=nn)
                ctx.check(q == p, f"{kind}: {b} alone decodes as {q}, not {p}")
    else:
        for b, p in list(zip(g, pairs))[:6]:
            if b < 4259840 and p[0] < 256:
                q = utils.baseline_to_antnums(b, Nants_telescope=nn)
                ctx.check(q == p, f"miriad number {b} decodes as {q}, not {p}")


def s_refuse(ctx):
    rng = ctx.rng
    k = int(rng.integers(6))
    ctx.case(k, int(rng.integers(1 << 30)))
    bad = gen.pick(rng, [2**31, 2**31 + 5, 2**40, -1, -7, 2**33 + 3])
    ok = int(rng.integers(0, 3000))
    pos = int(rng.integers(4))
    arr = rng.integers(0, 3000, 5)
    if k == 0:
        a, b = (bad, ok) if rng.integers(2) else (ok, bad)
        ctx.raises(ValueError, lambda: utils.antnums_to_baseline(a, b, Nants_telescope=10), f"antennas {a},{b}")
    elif k == 1:
        x = arr.copy()
        x[pos] = bad
        a, b = (x, arr) if rng.integers(2) else (arr, x)
        ctx.raises(ValueError, lambda: utils.antnums_to_baseline(a, b, Nants_telescope=10, attempt256=bool(rng.integers(2))), f"antenna {bad} in an array")
    elif k == 2:
        ctx.raises(ValueError, lambda: utils.antnums_to_baseline(1, 2, Nants_telescope=2**31 + int(rng.integers(1, 9))), "too many antennas")
    elif k == 3:
        ctx.raises(ValueError, lambda: utils.baseline_to_antnums(-int(rng.integers(1, 99)), Nants_telescope=5), "negative baseline")
    elif k == 4:
        ctx.raises(ValueError, lambda: utils.baseline_to_antnums(np.array([70000, 4611686018498691073 + int(rng.integers(99))], dtype=np.uint64), Nants_telescope=5), "huge baseline")
    else:
        n = int(rng.integers(2, 9))
        m = int(rng.integers(1, n)) if rng.integers(2) else n + int(rng.integers(1, 4))
        ctx.raises(Exception, lambda: utils.antnums_to_baseline(np.arange(n), np.arange(m), Nants_telescope=10), f"{n} first and {m} second antennas")
        ctx.ev("mismatch_refused")
    ctx.ev("refused")


PAIRS_OF = {"x": ("x", "y"), "y": ("x", "y"), "l": ("l", "r"), "r": ("l", "r")}
NUM = {"xx": -5, "yy": -6, "xy": -7, "yx": -8, "rr": -1, "ll": -2, "rl": -3, "lr": -4}


def s_parse(ctx):
    """strings as the tutorial describes them"""
    rng = ctx.rng
    circ = rng.integers(4) == 0
    pols = [-1, -2, -3, -4] if circ else [-5, -6, -7, -8]
    if rng.integers(3) == 0:
        pols = sorted(gen.pick(rng, [pols[:1], pols[:2], pols[1:3]]), reverse=True)
    orient = gen.pick(rng, [None, "east", "north"])
    uv = gen.make_uvdata(rng, pols=pols, nfreqs=2, ntimes=1) if False else gen.make_uvdata(rng, ntimes=1)
    if [int(p) for p in uv.polarization_array] and set(int(p) for p in uv.polarization_array) & {1, 2, 3, 4}:
        circ = None
    else:
        circ = int(uv.polarization_array[0]) > -5
    uv.telescope.x_orientation = orient
    if orient and not circ:
        ctx.ev("parse_orient")
    data = list(dict.fromkeys(zip(uv.ant_1_array.tolist(), uv.ant_2_array.tolist())))
    obj = uv
    if rng.integers(4) == 0:
        obj = UVFlag(uv, mode="flag")
        ctx.ev("uvflag_parse")
    ants = sorted({a for p in data for a in p})
    have = {int(p) for p in uv.polarization_array}
    letters = [] if circ is None else (["l", "r"] if circ else ["x", "y"])

    def find(p):
        return p if p in data else (p[::-1] if p[::-1] in data else None)

    want_pairs, want_pols, parts = [], set(), []
    npart = int(rng.integers(1, 4))
    minus_ok = True
    for ip in range(npart):
        kind = gen.pick(rng, ["ant", "bl", "bl", "group", "kw", "minus_ant", "minus_bl", "pol_bl", "pol_ant", "pol_group"])
        if kind.startswith("pol") and not letters:
            kind = "bl"
        if kind.startswith("minus") and (ip == 0 or not want_pairs):
            kind = "ant"
        if kind == "ant":
            a = gen.pick(rng, ants)
            parts.append(str(a))
            add = [find((a, b)) for b in ants]
        elif kind == "bl":
            a, b = gen.pick(rng, data)
            if rng.integers(2):
                a, b = b, a
            parts.append(f"{a}_{b}")
            add = [find((a, b))]
        elif kind == "group":
            A = [gen.pick(rng, ants) for _ in range(int(rng.integers(1, 3)))]
            B = [gen.pick(rng, ants) for _ in range(int(rng.integers(2, 4)))]
            parts.append(f"({','.join(map(str, A))})_({','.join(map(str, B))})" if len(A) > 1 else f"{A[0]}_({','.join(map(str, B))})")
            add = [find((a, b)) for a in A for b in B]
            ctx.ev("parse_groups")
        elif kind == "kw":
            w = gen.pick(rng, ["auto", "cross", "AUTO", "Cross", "all"])
            if w == "all" and (npart == 1 or ip > 0):
                w = "auto"
            parts.append(w)
            add = [p for p in data if w == "all" or (p[0] == p[1]) == (w.lower() == "auto")]
            if w == "all":
                want_pairs = []
        elif kind == "minus_ant":
            a = gen.pick(rng, ants)
            parts.append(f"-{a}")
            rem = {find((a, b)) for b in ants}
            want_pairs = [p for p in want_pairs if p not in rem]
            add = []
            ctx.ev("parse_minus")
        elif kind == "minus_bl":
            a, b = gen.pick(rng, want_pairs)
            if rng.integers(2):
                a, b = b, a
            parts.append(f"-{a}_{b}")
            want_pairs = [p for p in want_pairs if p != find((a, b))]
            add = []
            ctx.ev("parse_minus")
        else:
            la, lb = gen.pick(rng, letters), gen.pick(rng, letters)
            if kind == "pol_bl":
                a, b = gen.pick(rng, data)
                v = int(rng.integers(3))
                sa, sb = [(f"{a}{la}", f"{b}{lb}"), (f"{a}{la}", f"{b}"), (f"{a}", f"{b}{lb}")][v]
                parts.append(f"{sa}_{sb}")
                add = [find((a, b))]
                ps = [[la + lb], [la + x for x in PAIRS_OF[la]], [x + lb for x in PAIRS_OF[lb]]][v]
            elif kind == "pol_group":
                A, B = [gen.pick(rng, ants) for _ in range(2)], [gen.pick(rng, ants) for _ in range(2)]
                LA, LB = [gen.pick(rng, letters) for _ in range(2)], [gen.pick(rng, letters) for _ in range(2)]
                parts.append(f"({A[0]}{LA[0]},{A[1]}{LA[1]})_({B[0]}{LB[0]},{B[1]}{LB[1]})")
                add = [find((a, b)) for a in A for b in B]
                ps = [x + y for x, a in zip(LA, A) for y, b in zip(LB, B) if find((a, b))]
            else:
                a = gen.pick(rng, ants)
                parts.append(f"{a}{la}")
                add = [find((a, b)) for b in ants]
                ps = [la + x for x in PAIRS_OF[la]]
            want_pols |= {NUM[p] for p in ps} & have
            ctx.ev("parse_pol")
        for p in add:
            if p is not None and p not in want_pairs:
                want_pairs.append(p)
    s = ",".join(parts)
    ctx.case(s, data, sorted(have), orient)
    if not want_pairs:
        ctx.ev("names_nothing")
        return  # a string that names no pair of the data is not claimed
    got, gpol = obj.parse_ants(s)
    ctx.ev("parse")
    ctx.check(got is not None and set(map(tuple, got)) == set(want_pairs) and len(set(map(tuple, got))) == len(got),
              lambda: f"{s!r} on {data}: parsed {got}, names {want_pairs}")
    ctx.check((set(gpol) if gpol else set()) == want_pols, lambda: f"{s!r} with polarizations {sorted(have)} (x_orientation {orient}): parsed {gpol}, names {sorted(want_pols)}")
    if obj is uv:
        u2 = uv.select(ant_str=s, inplace=False)
        ctx.check(set(zip(u2.ant_1_array.tolist(), u2.ant_2_array.tolist())) == set(want_pairs), f"select(ant_str={s!r}) kept other pairs")
        ctx.check({int(p) for p in u2.polarization_array} == (want_pols or have), f"select(ant_str={s!r}) kept polarizations {u2.polarization_array}")


def s_object(ctx):
    """methods of visibility and flag objects agree with the arrays they describe"""
    rng = ctx.rng
    uv = gen.make_uvdata(rng, ntimes=2)
    ctx.case(uv.ant_1_array, uv.ant_2_array)
    ctx.ev("object_methods")
    b = uv.antnums_to_baseline(uv.ant_1_array, uv.ant_2_array)
    a1, a2 = uv.baseline_to_antnums(uv.baseline_array)
    ctx.check(np.array_equal(a1, uv.ant_1_array) and np.array_equal(a2, uv.ant_2_array), "baseline_array does not decode to the antenna arrays")
    a1, a2 = uv.baseline_to_antnums(b)
    ctx.check(np.array_equal(a1, uv.ant_1_array) and np.array_equal(a2, uv.ant_2_array), "numbers made by the object do not decode to the antenna arrays")
    pairs = set(zip(uv.ant_1_array.tolist(), uv.ant_2_array.tolist()))
    ctx.check(set(map(tuple, uv.get_antpairs())) == pairs, "get_antpairs")
    ctx.check(set(np.asarray(uv.get_ants()).tolist()) == {a for p in pairs for a in p}, "get_ants")
    ctx.check(set(np.asarray(uv.get_baseline_nums()).tolist()) == set(uv.baseline_array.tolist()), "get_baseline_nums")
    pols = uv.get_pols()
    ctx.check(len(pols) == uv.Npols, "get_pols")
    app = uv.get_antpairpols()
    ctx.check(len(app) == len(pairs) * uv.Npols and {tuple(x[:2]) for x in app} == pairs and {x[2] for x in app} == set(pols), "get_antpairpols")


SCENARIOS = [
    Scenario("pairs", s_pairs, 4000, 120000),
    Scenario("refuse", s_refuse, 400, 4000),
    Scenario("parse", s_parse, 1500, 40000),
    Scenario("object", s_object, 300, 5000),
]
