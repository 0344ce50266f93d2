"""C24 Polarization vocabulary."""
import itertools

import numpy as np

from pyuvdata import utils
from pyuvdata.utils import pol as upol
from vmon import gen
from vmon.core import Scenario

RULE = (
    "every name and number of the vocabulary in every letter case, for every orientation spelling, one at a time and in random sequences of every container type, "
    "with returned containers modified by the caller and the question asked again; all orderings of polarization sets; non-trivial = distinct question"
)
REQUIRED = ["str2num", "num2str", "jones", "conj", "reorder_conj", "order", "mutated_result", "orient_east", "orient_north", "unknown_refused", "containers"]

# the AIPS memo 117 / CalFITS memo table, written down independently
AIPS = {"pi": 1, "pq": 2, "pu": 3, "pv": 4, "i": 1, "q": 2, "u": 3, "v": 4, "rr": -1, "ll": -2, "rl": -3, "lr": -4, "xx": -5, "yy": -6, "xy": -7, "yx": -8,
        "hh": -5, "vv": -6, "hv": -7, "vh": -8}
NUM = {1: "pI", 2: "pQ", 3: "pU", 4: "pV", -1: "rr", -2: "ll", -3: "rl", -4: "lr", -5: "xx", -6: "yy", -7: "xy", -8: "yx"}
JNUM = {-1: "Jrr", -2: "Jll", -3: "Jrl", -4: "Jlr", -5: "Jxx", -6: "Jyy", -7: "Jxy", -8: "Jyx"}
JSTR = {**{v.lower(): k for k, v in JNUM.items()}, **{v[1:].lower(): k for k, v in JNUM.items()}, "x": -5, "y": -6, "r": -1, "l": -2}
ORI = {None: None, "east": "en", "e": "en", "ew": "en", "EAST": "en", "E": "en", "north": "ne", "n": "ne", "ns": "ne", "North": "ne", "NS": "ne"}


def _en(name, o):
    m = ORI[o]
    if m is None:
        return name
    return name.replace("x", "\0").replace("y", m[1]).replace("\0", m[0])


def _tables(o):
    s2n = dict(AIPS)
    for k in ("xx", "yy", "xy", "yx"):
        s2n[_en(k, o)] = AIPS[k]
    j2n = dict(JSTR)
    for k in list(JSTR):
        if ORI[o] and ("x" in k or "y" in k):
            j2n[_en(k, o)] = JSTR[k]
    return s2n, {k: _en(v, o) for k, v in NUM.items()}, j2n, {k: ("J" + _en(v[1:], o)) for k, v in JNUM.items()}


def _case(rng, s):
    return "".join(c.upper() if rng.integers(2) else c.lower() for c in s)


def _container(ctx, rng, seq):
    k = int(rng.integers(4))
    ctx.ev("containers")
    return [list(seq), tuple(seq), np.array(list(seq)), np.array(list(seq))[::1]][k]


def s_convert(ctx):
    rng = ctx.rng
    o = gen.pick(rng, list(ORI))
    if ORI[o]:
        ctx.ev("orient_east" if ORI[o] == "en" else "orient_north")
    s2n, n2s, j2n, jn2s = _tables(o)
    kw = {} if o is None and rng.integers(2) else {"x_orientation": o}
    fwd, back, tf, tb = gen.pick(rng, [
        (utils.polstr2num, utils.polnum2str, s2n, n2s), (utils.jstr2num, utils.jnum2str, j2n, jn2s)])
    if tf is j2n:
        ctx.ev("jones")
    for _ in range(3):
        n = int(rng.integers(1, 7))
        names = [gen.pick(rng, list(tf)) for _ in range(n)]
        shown = [_case(rng, s) for s in names]
        want = [tf[s] for s in names]
        ctx.case(o, shown)
        ctx.check(fwd(shown[0], **kw) == want[0], lambda: f"{fwd.__name__}({shown[0]!r}, {kw}) = {fwd(shown[0], **kw)}, not {want[0]}")
        got = fwd(_container(ctx, rng, shown), **kw)
        ctx.ev("str2num")
        ctx.check(list(got) == want, lambda: f"{fwd.__name__}({shown}, {kw}) = {got}, not {want}")
        # what the caller does with the answer must not change later answers
        if isinstance(got, list):
            got.reverse()
            got.append(99)
            got[0] = 7
            ctx.ev("mutated_result")
            again = fwd(tuple(shown), **kw)
            ctx.check(list(again) == want, lambda: f"{fwd.__name__}({shown}) = {again} after the caller changed an earlier answer; should be {want}")
        nums = [gen.pick(rng, list(tb)) for _ in range(n)]
        wn = [tb[k] for k in nums]
        k0 = gen.pick(rng, [int, np.int64, np.int32])(nums[0])
        ctx.check(back(k0, **kw) == wn[0], lambda: f"{back.__name__}({nums[0]}, {kw}) = {back(k0, **kw)}, not {wn[0]}")
        got = back(_container(ctx, rng, nums), **kw)
        ctx.ev("num2str")
        ctx.check(list(got) == wn, lambda: f"{back.__name__}({nums}, {kw}) = {got}, not {wn}")
        if isinstance(got, list):
            got.clear()
            again = back(tuple(nums), **kw)
            ctx.check(list(again) == wn, lambda: f"{back.__name__}({nums}) = {again} after the caller changed an earlier answer; should be {wn}")
        ctx.check(fwd(back(tuple(nums), **kw), **kw) == nums, "number -> name -> number is not the identity")
        p = upol.parse_polstr if tf is s2n else upol.parse_jpolstr
        ctx.check(p(shown[0], **kw) == tb[want[0]], f"{p.__name__}({shown[0]!r}, {kw})")


def s_conj(ctx):
    rng = ctx.rng
    ref = {"x": "x"}
    names = ["xx", "yy", "xy", "yx", "ee", "nn", "en", "ne", "rr", "ll", "rl", "lr", "I", "Q", "U", "V", "pI", "pQ", "pU", "pV"]
    del ref
    n = int(rng.integers(1, 6))
    pick = [gen.pick(rng, names) for _ in range(n)]
    shown = [_case(rng, s) for s in pick]
    want = [s if (s[0] in "pIQUV") else s[::-1] for s in pick]
    ctx.case("conj", shown)
    got = utils.conj_pol(shown)
    ctx.ev("conj")
    ctx.check([g.lower() for g in got] == [w.lower() for w in want], lambda: f"conj_pol({shown}) = {got}, not {want}")
    ctx.check([g.lower() for g in utils.conj_pol(got)] == [s.lower() for s in pick], "conjugating twice is not the identity")
    nums = [gen.pick(rng, list(NUM)) for _ in range(n)]
    wn = [{-3: -4, -4: -3, -7: -8, -8: -7}.get(k, k) for k in nums]
    got = utils.conj_pol(np.array(nums)) if rng.integers(2) else [utils.conj_pol(k) for k in nums]
    ctx.check(list(got) == wn, lambda: f"conj_pol({nums}) = {got}, not {wn}")
    # index map for conjugated data: pols[map[i]] is the conjugate of pols[i]
    base = gen.pick(rng, [[-5, -6, -7, -8], [-1, -2, -3, -4], [1, 2, 3, 4], [-5, -6], [-7, -8], [-1, -2], [-3, -4], [-5], [-6, -5, -8, -7, -1], [1, -5]])
    pols = [base[i] for i in rng.permutation(len(base))]
    m = upol.reorder_conj_pols(pols)
    ctx.ev("reorder_conj")
    ctx.check(sorted(m) == list(range(len(pols))), f"reorder_conj_pols({pols}) = {m} is not a permutation")
    for i, p in enumerate(pols):
        ctx.check(pols[m[i]] == {-3: -4, -4: -3, -7: -8, -8: -7}.get(p, p), f"reorder_conj_pols({pols}) = {m}: entry {i}")
    bad = gen.pick(rng, [[-5, -7], [-8], [-3, -1], [-7, -6, -5]])
    ctx.raises(ValueError, lambda: upol.reorder_conj_pols(bad), f"reorder_conj_pols({bad})")


CASA = [1, 2, 3, 4, -1, -3, -4, -2, -5, -7, -8, -6]


def s_order(ctx):
    rng = ctx.rng
    base = gen.pick(rng, [[-5, -6, -7, -8], [-1, -2, -3, -4], [1, 2, 3, 4]])
    k = int(rng.integers(1, 5))
    pols = [base[i] for i in rng.permutation(4)[:k]]
    form = gen.pick(rng, [list, np.array, tuple])(pols)
    ctx.case("order", pols)
    ctx.ev("order")
    ia = np.asarray(upol.determine_pol_order(form, order="AIPS"))
    ic = np.asarray(upol.determine_pol_order(form, order="CASA"))
    ctx.check([pols[i] for i in ia] == sorted(pols, key=abs), f"AIPS order of {pols}: {ia}")
    ctx.check([pols[i] for i in ic] == sorted(pols, key=CASA.index), f"CASA order of {pols}: {ic}")
    ctx.raises(ValueError, lambda: upol.determine_pol_order(form, order="aips2"), "unknown order")


def s_unknown(ctx):
    rng = ctx.rng
    s = gen.pick(rng, ["xz", "", "ab", "pX", "xxx", "rx", "J", "ee", "nn", "en"])
    n = int(gen.pick(rng, [0, 5, -9, 12]))
    ctx.case(s, n)
    ctx.ev("unknown_refused")
    ctx.raises((KeyError, ValueError), lambda: utils.polstr2num(s), f"polstr2num({s!r}) without orientation")
    ctx.raises((KeyError, ValueError), lambda: utils.polstr2num(["xx", s]), f"polstr2num(['xx', {s!r}])")
    ctx.raises((KeyError, ValueError), lambda: utils.polnum2str(n), f"polnum2str({n})")
    ctx.raises((KeyError, ValueError), lambda: utils.polnum2str([-5, n]), f"polnum2str([-5, {n}])")
    if s not in ("J",):
        ctx.raises((KeyError, ValueError), lambda: utils.jstr2num(s), f"jstr2num({s!r})")
    ctx.raises((KeyError, ValueError), lambda: utils.jnum2str(int(gen.pick(rng, [0, 1, 4, -9]))), "jnum2str of an unknown number")
    ctx.raises((KeyError, ValueError, AttributeError), lambda: upol.x_orientation_pol_map(gen.pick(rng, ["west", "", "x", "up"])), "unknown orientation")
    for o in ("east", "north", "e", "n", "ew", "ns", "EW"):
        ctx.check(upol.x_orientation_pol_map(o) == ({"x": "e", "y": "n"} if ORI.get(o, ORI.get(o.lower())) == "en" else {"x": "n", "y": "e"}), f"orientation {o}")


def s_exhaustive(ctx):
    """the whole vocabulary, once, all orderings of every set"""
    for o in ORI:
        s2n, n2s, j2n, jn2s = _tables(o)
        for s, v in s2n.items():
            for t in {s, s.upper(), s.capitalize()}:
                ctx.check(utils.polstr2num(t, x_orientation=o) == v, f"polstr2num({t}, {o})")
        for k, v in n2s.items():
            ctx.check(utils.polnum2str(k, x_orientation=o) == v, f"polnum2str({k}, {o})")
        for s, v in j2n.items():
            for t in {s, s.upper(), s.capitalize()}:
                ctx.check(utils.jstr2num(t, x_orientation=o) == v, f"jstr2num({t}, {o})")
        for k, v in jn2s.items():
            ctx.check(utils.jnum2str(k, x_orientation=o) == v, f"jnum2str({k}, {o})")
    for base in ([-5, -6, -7, -8], [-1, -2, -3, -4], [1, 2, 3, 4]):
        for perm in itertools.permutations(base):
            i = upol.determine_pol_order(list(perm), order="CASA")
            ctx.check([perm[k] for k in i] == sorted(perm, key=CASA.index), f"CASA order of {perm}")
            m = upol.reorder_conj_pols(list(perm))
            ctx.check(all(perm[m[k]] == {-3: -4, -4: -3, -7: -8, -8: -7}.get(p, p) for k, p in enumerate(perm)), f"reorder_conj_pols({perm})")
    for table, ref in ((upol.POL_STR2NUM_DICT, AIPS), (upol.JONES_STR2NUM_DICT, JSTR)):
        ctx.check(ref.items() <= {k.lower(): v for k, v in table.items()}.items(), "vocabulary table changed")
    ctx.case("exhaustive")


SCENARIOS = [
    Scenario("exhaustive", s_exhaustive, 1, 1),
    Scenario("convert", s_convert, 3000, 60000),
    Scenario("conj", s_conj, 2000, 30000),
    Scenario("order", s_order, 500, 5000),
    Scenario("unknown", s_unknown, 300, 2000),
]
