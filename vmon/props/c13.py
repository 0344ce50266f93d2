"""C13 Redundancy grouping, compression and inflation."""
import numpy as np
from astropy import units
from astropy.coordinates import EarthLocation

from pyuvdata import Telescope
from pyuvdata import utils as uvutils
from vmon import canon, gen
from vmon.core import Scenario, Skip
from vmon.props import common

RULE = (
    "antenna arrays on rotated square/hexagonal/linear lattices with jitter well below the tolerance, random antenna numbering and subsets of "
    "baselines in random orientation; the integer lattice separation of a baseline is the ground truth of its group; irregular arrays are "
    "judged by pairwise distances; non-trivial = distinct (array, object, options)"
)
REQUIRED = ["groups_from_data", "groups_from_antennas", "grid_algorithm", "cluster_algorithm", "conjugated_member", "compress_select", "compress_average",
            "average_flagged", "average_fully_flagged", "cross_pols_conjugated", "inflate", "inflate_after_compress", "inflate_missing_group", "ragged_times",
            "irregular_refused", "irregular_partition", "projected", "scan_numbers", "metadata_only", "not_inplace"]

CONJ = {-3: -4, -4: -3, -7: -8, -8: -7}


def _lattice(rng, n):
    kind = gen.pick(rng, ["square", "hex", "line"])
    if kind == "line":
        pts = [(i, 0) for i in range(n + 2)]
    else:
        pts = [(i, j) for i in range(4) for j in range(4)]
    lab = [pts[i] for i in rng.choice(len(pts), n, replace=False)]
    a = np.array([1.0, 0.0])
    b = np.array([0.5, 0.75 ** 0.5]) if kind == "hex" else np.array([0.0, 1.0])
    th = float(gen.pick(rng, [0.0, np.pi / 2, rng.uniform(0, 6.28)]))
    R = np.array([[np.cos(th), -np.sin(th)], [np.sin(th), np.cos(th)]])
    return lab, (R @ a, R @ b)


def _array(rng, tol, n=None, irregular=False):
    n = int(rng.integers(3, 8)) if n is None else n
    lab, (a, b) = _lattice(rng, n)
    sp = tol * float(rng.uniform(8, 30))
    enu = np.array([[*(sp * (i * a + j * b)), 0.0] for i, j in lab])
    if irregular:
        j = float(gen.pick(rng, [0.3, 0.5, 1.0, 2.0]))
        enu[:, :2] += rng.uniform(-j * tol, j * tol, (n, 2))
    else:
        enu += rng.uniform(-0.01, 0.01, (n, 3)) * tol
    nums = np.arange(n) if rng.integers(2) else rng.choice(400, n, replace=False)
    nums = np.asarray(nums, dtype=int)
    lat, lon, alt = gen.pick(rng, gen.SITES)
    loc = EarthLocation.from_geodetic(lon=lon * units.deg, lat=lat * units.deg, height=alt * units.m)
    c = np.array([loc.x.to_value("m"), loc.y.to_value("m"), loc.z.to_value("m")])
    pos = uvutils.ECEF_from_ENU(enu, center_loc=loc) - c
    tel = Telescope.new(name="RED", location=loc, antenna_positions=pos, antenna_names=[f"A{k}" for k in nums], antenna_numbers=nums,
                        instrument="I", x_orientation="east", antenna_diameters=np.full(n, 3.0))
    L = {int(k): np.array(v) for k, v in zip(nums, lab)}
    E = {int(k): v for k, v in zip(nums, enu)}
    return tel, L, E


def _mk(ctx, tol, irregular=False, kinds=None, layout=None, **kw):
    rng = ctx.rng
    tel, L, E = _array(rng, tol, irregular=irregular)
    n = tel.Nants
    nb = int(rng.integers(2, n * (n + 1) // 2 + 1)) if not irregular else n * n
    uv = gen.make_uvdata(rng, tel=tel, nbl=nb, ntimes=int(rng.integers(1, 4)), nspw=1, chans=int(rng.integers(1, 3)), nphase=1,
                         kinds=kinds or ["sidereal", "unprojected", "unprojected", "driftscan"], flag_p=gen.pick(rng, [0.0, 0.2, 0.6]),
                         int_time=10.0, layout=layout, dtype=np.complex128, **kw)
    e = list(uv.phase_center_catalog.values())[0]
    if e["cat_type"] != "unprojected":
        ctx.ev("projected")
    if len(set(zip(uv.time_array.tolist(), uv.baseline_array.tolist()))) != uv.Ntimes * uv.Nbls:
        ctx.ev("ragged_times")
    # stay away from the sign-convention boundaries, in the frame of the antennas and of the uvws
    for v in list(_vecs(uv, E).values()) + list(uv.uvw_array):
        if any(0.9 * tol < abs(x) < 1.1 * tol for x in v):
            raise Skip("sign boundary")
    return uv, L, E


def _vecs(uv, E):
    return {(int(a), int(b)): E[int(b)] - E[int(a)] for a, b in zip(uv.ant_1_array, uv.ant_2_array)}


def _lab(L, p):
    return tuple((L[p[1]] - L[p[0]]).tolist())


def _key(lab):
    neg = tuple(-x for x in lab)
    return max(lab, neg)


def _pair(uv, bl):
    a, b = uv.baseline_to_antnums(np.array([bl]))
    return int(a[0]), int(b[0])


def _true_groups(L, pairs):
    g = {}
    for p in pairs:
        g.setdefault(_key(_lab(L, p)), set()).add(p)
    return g


def s_groups(ctx):
    rng = ctx.rng
    tol = float(gen.pick(rng, [0.1, 0.5, 1.0, 2.0]))
    uv, L, E = _mk(ctx, tol)
    grid = bool(rng.integers(2))
    ctx.ev("grid_algorithm" if grid else "cluster_algorithm")
    before = uv.copy()
    pairs = set(zip(uv.ant_1_array.tolist(), uv.ant_2_array.tolist()))
    what = f"get_redundancies(tol={tol}, grid={grid})"
    # with conjugates
    gps, vecs, lens, conj = uv.get_redundancies(tol=tol, include_conjugates=True, use_grid_alg=grid)
    d = canon.diff(before, uv, exact=True, ignore=("blts_are_rectangular", "time_axis_faster_than_bls"))
    ctx.check(not d, f"{what} changed the object: {d[:2]}")
    conj = {int(b) for b in np.atleast_1d(conj)}
    flat = [int(b) for g in gps for b in g]
    ctx.check(len(flat) == len(set(flat)) and {_pair(uv, b) for b in flat} == pairs, f"{what}: groups do not partition the baselines of the data")
    want = {frozenset(s) for s in _true_groups(L, pairs).values()}
    got = {frozenset(_pair(uv, b) for b in g) for g in gps}
    ctx.check(got == want, lambda: f"{what}: groups {sorted(map(sorted, got - want))} expected {sorted(map(sorted, want - got))}")
    V = {}
    for (a, b), u in zip(zip(uv.ant_1_array.tolist(), uv.ant_2_array.tolist()), uv.uvw_array):
        V.setdefault((a, b), []).append(u)
    for g, v, ln in zip(gps, vecs, lens):
        labs = set()
        for b in g:
            p = _pair(uv, b)
            s = -1 if int(b) in conj else 1
            if s < 0:
                ctx.ev("conjugated_member")
            labs.add(tuple(s * x for x in _lab(L, p)))
            # the group's vector is the vector of each of its baselines, in whichever frame it is given
            near = min(np.linalg.norm(s * u - v) for u in [*V[p], E[p[1]] - E[p[0]]])
            ctx.check(near < tol, f"{what}: baseline {p} is {near} m from the vector of its group")
        ctx.check(len(labs) == 1, f"{what}: orientations within a group disagree: {labs}")
        ctx.check(abs(ln - np.linalg.norm(v)) < 1e-6, f"{what}: length {ln} of vector {v}")
    # without conjugates: groups of equal vectors
    gps = uv.get_redundancies(tol=tol, use_grid_alg=grid)[0]
    got = {frozenset(_pair(uv, b) for b in g) for g in gps}
    g2 = {}
    for p in pairs:
        g2.setdefault(_lab(L, p), set()).add(p)
    ctx.check(got == {frozenset(s) for s in g2.values()}, f"{what} without conjugates: wrong groups")
    ctx.ev("groups_from_data")
    # from the antennas: all pairs of the telescope
    autos = bool(rng.integers(2))
    w = uv.copy()
    gps, vecs, lens = w.get_redundancies(tol=tol, use_antpos=True, include_autos=autos, conjugate_bls=True, use_grid_alg=grid)
    nums = [int(x) for x in uv.telescope.antenna_numbers]
    allp = {frozenset((a, b)) for a in nums for b in nums if autos or a != b}
    gp = [[_pair(uv, b) for b in g] for g in gps]
    flat = [frozenset(p) for g in gp for p in g]
    ctx.check(len(flat) == len(set(flat)) and set(flat) == allp, f"{what} from antennas: groups do not partition the antenna pairs")
    for g, v, ln in zip(gp, vecs, lens):
        labs = {_lab(L, p) for p in g}
        ctx.check(len(labs) == 1, f"{what} from antennas: group mixes separations {labs}")
        for p in g:
            ctx.check(np.linalg.norm(E[p[1]] - E[p[0]] - v) < tol, f"{what} from antennas: vector of {p} is not that of its group")
    ctx.check(len({_lab(L, g[0]) for g in gp}) == len(gp) == len({_key(_lab(L, g[0])) for g in gp}), f"{what} from antennas: two groups have the same separation")
    listed = {p for g in gp for p in g}
    have = set(zip(w.ant_1_array.tolist(), w.ant_2_array.tolist()))
    ctx.check(all(p in listed for p in have if autos or p[0] != p[1]), f"{what} from antennas: the object was not conjugated to match the groups")
    d = canon.dictdiff(canon.oriented(before), canon.oriented(w))
    ctx.check(not d, lambda: f"{what} with conjugate_bls changed measurements: {d[:3]}")
    ctx.ev("groups_from_antennas")
    ctx.case("groups", common.describe_uv(uv), tol, grid)


def s_irregular(ctx):
    rng = ctx.rng
    tol = float(gen.pick(rng, [0.5, 1.0]))
    uv, _, E = _mk(ctx, tol, irregular=True)
    pairs = set(zip(uv.ant_1_array.tolist(), uv.ant_2_array.tolist()))
    V = _vecs(uv, E)
    what = f"get_redundancies(tol={tol}) on an irregular array"
    for grid in (False, True):
        try:
            gps = uv.get_redundancies(tol=tol, use_grid_alg=grid)[0]
        except ValueError as e:
            ctx.check(not grid and "multiple redundant groups" in str(e), f"{what}: {e}")
            # ambiguity must be real: some chain a-b-c with |ac| >= tol
            vs = list(V.values())
            near = [[np.linalg.norm(a - b) < tol * 1.0001 for b in vs] for a in vs]
            amb = any(near[i][j] and near[j][k] and np.linalg.norm(vs[i] - vs[k]) > tol * 0.9999 for i in range(len(vs)) for j in range(len(vs)) for k in range(len(vs)))
            ctx.check(amb, f"{what}: refused although no baseline is ambiguous")
            ctx.ev("irregular_refused")
            continue
        flat = [_pair(uv, b) for g in gps for b in g]
        ctx.check(len(flat) == len(set(flat)) and set(flat) == pairs, f"{what}: groups do not partition the baselines (grid={grid})")
        if not grid:
            G = [[V[_pair(uv, b)] for b in g] for g in gps]
            for i, g in enumerate(G):
                for h in G[i:]:
                    for a in g:
                        for b in h:
                            r = np.linalg.norm(a - b)
                            if abs(r - tol) < 1e-3 * tol:
                                continue
                            ctx.check((r < tol) == (g is h), f"{what}: baselines {r} m apart {'in one group' if g is h else 'in different groups'}")
        else:
            for g in gps:
                vs = [V[_pair(uv, b)] for b in g]
                ctx.check(max(np.linalg.norm(a - b) for a in vs for b in vs) < 2 * tol, f"{what}: grid group wider than twice the tolerance")
        ctx.ev("irregular_partition")
    ctx.case("irregular", common.describe_uv(uv), tol)


def _recs(uv):
    r = {}
    for k, (a, b, t) in enumerate(zip(uv.ant_1_array.tolist(), uv.ant_2_array.tolist(), uv.time_array)):
        r[(a, b, round(float(t) * 86400 * 50))] = k
    return r


def _flip(arr, pols, conj=True):
    ix = [pols.index(CONJ.get(p, p)) for p in pols]
    out = arr[..., ix]
    return np.conj(out) if conj else out


def s_compress(ctx):
    rng = ctx.rng
    tol = float(gen.pick(rng, [0.5, 1.0]))
    uv, L, E = _mk(ctx, tol)
    method = gen.pick(rng, ["select", "average"])
    grid = bool(rng.integers(2))
    inplace = bool(rng.integers(3))
    if rng.integers(5) == 0:
        uv.scan_number_array = np.full(uv.Nblts, 3)
        ctx.ev("scan_numbers")
    meta = rng.integers(8) == 0
    if meta:
        uv = uv.copy(metadata_only=True)
        ctx.ev("metadata_only")
    kam = bool(rng.integers(3))
    before = uv.copy()
    what = f"compress_by_redundancy({method}, tol={tol}, grid={grid}, inplace={inplace})"
    res = uv.compress_by_redundancy(method=method, tol=tol, use_grid_alg=grid, inplace=inplace, keep_all_metadata=kam)
    if inplace:
        res = uv
    else:
        d = canon.diff(before, uv, exact=True, ignore=("blts_are_rectangular", "time_axis_faster_than_bls"))
        ctx.check(not d, f"{what} changed the original: {d[:2]}")
        ctx.ev("not_inplace")
    pairs = set(zip(before.ant_1_array.tolist(), before.ant_2_array.tolist()))
    tg = _true_groups(L, pairs)
    kept = set(zip(res.ant_1_array.tolist(), res.ant_2_array.tolist()))
    ctx.check(kept <= pairs and sorted(_key(_lab(L, p)) for p in kept) == sorted(tg), f"{what}: kept {sorted(kept)} of groups {tg}")
    rb, rr = _recs(before), _recs(res)
    ctx.check({k[:2] for k in rb if k[:2] in kept} == kept and set(rr) == {k for k in rb if k[:2] in kept}, f"{what}: times of the kept baselines changed")
    pols = [int(p) for p in before.polarization_array]
    for k, i in rr.items():
        j = rb[k]
        d = [a for a in ("uvw_array", "integration_time", "lst_array", "phase_center_app_ra", "phase_center_id_array", "baseline_array")
             if not np.array_equal(getattr(before, a)[j], getattr(res, a)[i])]
        ctx.check(not d, f"{what}: {d} of {k} changed")
        if before.scan_number_array is not None:
            ctx.check(res.scan_number_array[i] == before.scan_number_array[j], f"{what}: scan number")
        if meta:
            continue
        if method == "select":
            ctx.check(np.array_equal(before.data_array[j], res.data_array[i]) and np.array_equal(before.flag_array[j], res.flag_array[i])
                      and np.array_equal(before.nsample_array[j], res.nsample_array[i]), f"{what}: measurements of {k} changed")
            continue
        mem = [(p, rb[(*p, k[2])]) for p in tg[_key(_lab(L, k[:2]))] if (*p, k[2]) in rb]
        D, F, N = [], [], []
        for p, m in mem:
            same = _lab(L, p) == _lab(L, k[:2])
            x, f, n = before.data_array[m], before.flag_array[m], before.nsample_array[m].astype(float)
            if not same:
                if len(set(pols) & set(CONJ)):
                    ctx.ev("cross_pols_conjugated")
                x, f, n = _flip(x, pols), _flip(f, pols, False), _flip(n, pols, False)
            D.append(x), F.append(f), N.append(n)
        D, F, N = np.array(D), np.array(F), np.array(N)
        allf = F.all(0)
        use = ~F | allf
        if allf.any() and not allf.all():
            ctx.ev("average_fully_flagged")
        if (F.any(0) & ~allf).any():
            ctx.ev("average_flagged")
        wd = (D * N * use).sum(0) / (N * use).sum(0)
        ctx.check(np.array_equal(res.flag_array[i], allf), f"{what}: flags of {k} wrong")
        ctx.check(np.allclose(res.nsample_array[i], (N * use).sum(0), rtol=1e-5), lambda: f"{what}: sample counts of {k}: {res.nsample_array[i].ravel()} expected {(N * use).sum(0).ravel()}")
        ctx.check(np.allclose(res.data_array[i], wd, rtol=1e-5, atol=1e-5 * np.abs(D).max()), lambda: f"{what}: average of {k} over {[m[0] for m in mem]}: {res.data_array[i].ravel()[:4]} expected {wd.ravel()[:4]}")
    common.sane(ctx, res, what)
    res.check()
    ctx.ev("compress_" + method)
    ctx.case("compress", common.describe_uv(before), method, tol, grid, inplace)


def s_inflate(ctx):
    rng = ctx.rng
    tol = float(gen.pick(rng, [0.5, 1.0]))
    uv, L, E = _mk(ctx, tol)
    grid = bool(rng.integers(2))
    comp = bool(rng.integers(3))
    if rng.integers(5) == 0:
        uv.scan_number_array = np.searchsorted(np.unique(uv.time_array), uv.time_array) + 1
        ctx.ev("scan_numbers")
    if comp:
        uv.compress_by_redundancy(tol=tol, use_grid_alg=grid)
        ctx.ev("inflate_after_compress")
    opts = {}
    if rng.integers(2):
        opts["blt_order"] = gen.pick(rng, ["time", "baseline", "ant1"])
    before = uv.copy()
    what = f"inflate_by_redundancy(tol={tol}, grid={grid}, {opts})"
    uv.inflate_by_redundancy(tol=tol, use_grid_alg=grid, **opts)
    pairs = set(zip(before.ant_1_array.tolist(), before.ant_2_array.tolist()))
    tg = _true_groups(L, pairs)
    nums = sorted(int(x) for x in uv.telescope.antenna_numbers)
    want = {frozenset((a, b)) for a in nums for b in nums if _key(_lab(L, (a, b))) in tg}
    have = set(zip(uv.ant_1_array.tolist(), uv.ant_2_array.tolist()))
    if len(want) < len(nums) * (len(nums) + 1) // 2:
        ctx.ev("inflate_missing_group")
    ctx.check({frozenset(p) for p in have} == want and len(have) == len(want), f"{what}: baselines {sorted(have)} expected {sorted(map(sorted, want))}")
    rb = _recs(before)
    pols = [int(p) for p in before.polarization_array]
    rows = {}
    for i, (a, b, t) in enumerate(zip(uv.ant_1_array.tolist(), uv.ant_2_array.tolist(), uv.time_array)):
        ctx.check((a, b, t) not in rows, f"{what}: two records for {(a, b, t)}")
        rows[(a, b, t)] = i
    for p in have:
        idx = np.nonzero((uv.ant_1_array == p[0]) & (uv.ant_2_array == p[1]))[0]
        ok = None
        for q in tg[_key(_lab(L, p))]:
            src = [rb[(*q, round(float(t) * 86400 * 50))] for t in uv.time_array[idx] if (*q, round(float(t) * 86400 * 50)) in rb]
            nq = sum(1 for k in rb if k[:2] == q)
            if len(src) != len(idx) or nq != len(idx):
                continue
            x, f, n, u = before.data_array[src], before.flag_array[src], before.nsample_array[src], before.uvw_array[src]
            if _lab(L, q) != _lab(L, p) or (p[0] == p[1] and False):
                x, f, n, u = _flip(x, pols), _flip(f, pols, False), _flip(n, pols, False), -u
                if len(set(pols) & set(CONJ)):
                    ctx.ev("cross_pols_conjugated")
            if np.array_equal(x, uv.data_array[idx]):
                ok = q
                ctx.check(np.array_equal(f, uv.flag_array[idx]) and np.array_equal(n, uv.nsample_array[idx]), f"{what}: flags or sample counts of {p} are not those of {q}")
                ctx.check(np.abs(u - uv.uvw_array[idx]).max() < tol, f"{what}: uvws of {p} are not those of its group")
                for a in ("lst_array", "integration_time", "phase_center_app_ra", "phase_center_app_dec", "phase_center_frame_pa", "phase_center_id_array", "time_array", "scan_number_array"):
                    if getattr(before, a) is not None:
                        ctx.check(np.array_equal(getattr(before, a)[src], getattr(uv, a)[idx]), f"{what}: {a} of {p} is not that of {q}")
                break
        ctx.check(ok is not None, lambda: f"{what}: baseline {p} does not hold the visibilities of any member of its group {tg[_key(_lab(L, p))]}: {uv.data_array[idx].ravel()[:3]}")
    common.sane(ctx, uv, what)
    uv.check()
    ctx.ev("inflate")
    ctx.case("inflate", common.describe_uv(before), tol, grid, comp, opts)


SCENARIOS = [Scenario("groups", s_groups, 250, 6000), Scenario("irregular", s_irregular, 150, 4000), Scenario("compress", s_compress, 350, 8000),
             Scenario("inflate", s_inflate, 250, 6000)]
