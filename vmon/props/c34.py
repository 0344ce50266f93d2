"""C34 Beam transformations."""
import numpy as np

from vmon import canon, gen
from vmon.core import Scenario, Skip
from vmon.props import beamcommon as bc
from vmon.props import common

RULE = (
    "random efield/power beams on regular and HEALPix grids are converted to power and Stokes, normalised and interpolated (cubic, linear, nearest, "
    "to points, grids and pixels, in any order, batch and with reused splines after other operations); every value is recomputed from the samples; "
    "non-trivial = distinct (beam, request)"
)
REQUIRED = ["to_power", "power_vec", "power_rotated", "power_skewed", "smooth_closed", "smooth_open", "power_1feed", "power_auto_only", "pstokes", "peak_normalize", "at_samples", "bilinear", "wrap", "batch", "freq_at_samples", "freq_linear",
            "freq_cubic", "freq_nearest", "pol_subset", "reuse_spline", "reuse_after_op", "outside_refused", "freq_outside_refused", "misaligned_refused", "new_object_grid", "new_object_freq", "new_object_pols",
            "healpix_interp", "healpix_centers", "healpix_partial_refused", "healpix_unordered_refused", "to_healpix", "area", "sq_area", "bandpass", "coupling", "phased_refused", "already_power_refused"]
PN = {"xx": -5, "yy": -6, "xy": -7, "yx": -8, "rr": -1, "ll": -2, "rl": -3, "lr": -4}
NAME = {1: "pI", 2: "pQ", 3: "pU", 4: "pV", -1: "rr", -2: "ll", -3: "rl", -4: "lr", -5: "xx", -6: "yy", -7: "xy", -8: "yx"}


def _close(ctx, a, b, what, tol=1e-9):
    a, b = np.asarray(a), np.asarray(b)
    ctx.check(a.shape == b.shape, lambda: f"{what}: shape {a.shape}, expected {b.shape}")
    sc = max(1e-30, float(np.max(np.abs(b)))) if b.size else 1.0
    bad = np.argwhere(~(np.abs(a - b) <= tol * sc))
    ctx.check(len(bad) == 0, lambda: f"{what}: at {bad[0]} {a[tuple(bad[0])]}, expected {b[tuple(bad[0])]} ({len(bad)}/{a.size})")


def _polnum(f1, f2, xo):
    m = {"x": "x", "y": "y", "r": "r", "l": "l"}
    if xo is not None:
        m["e"], m["n"] = ("x", "y") if xo == "east" else ("y", "x")
    return PN[m[f1] + m[f2]]


def power(ctx):
    rng = ctx.rng
    b = gen.make_beam(rng, beam_type="efield", phased=(rng.integers(8) == 0))
    ctx.case(bc.describe(b))
    s = canon.snap(b)
    cross = bool(rng.integers(2))
    keep = bool(rng.integers(4) == 0)
    if b.antenna_type == "phased_array":
        ctx.raises(NotImplementedError, lambda: b.efield_to_power(), "power of a phased array")
        ctx.check(not canon.diff(s, b, exact=True), "refused conversion changed the beam")
        ctx.ev("phased_refused")
        return
    inplace = bool(rng.integers(2))
    r = b.copy() if inplace else b
    out = r.efield_to_power(calc_cross_pols=cross, keep_basis_vector=keep, inplace=inplace)
    if inplace:
        out = r
    ctx.check(not canon.diff(s, b, exact=True), "the original changed")
    fe = [str(f) for f in s["feed_array"]]
    pairs = [(i, i) for i in range(len(fe))] + ([(0, 1), (1, 0)] if cross and len(fe) == 2 else [])
    want = {}
    E, B = s["data_array"], s["basis_vector_array"]
    for i, j in pairs:
        p = _polnum(fe[i], fe[j], s["x_orientation"])
        if keep:
            want[p] = E[:, i] * np.conj(E[:, j])
        else:
            v = np.einsum("vf...,vc...->cf...", E[:, i], B), np.einsum("vf...,vc...->cf...", E[:, j], B)
            want[p] = np.sum(v[0] * np.conj(v[1]), axis=0)[None]
        if i == j:
            want[p] = want[p].real
    what = f"efield_to_power(calc_cross_pols={cross}, keep_basis_vector={keep})"
    ctx.check(sorted(want) == sorted(out.polarization_array.tolist()), lambda: f"{what}: polarizations {out.polarization_array} from feeds {fe} ({s['x_orientation']})")
    for k, p in enumerate(out.polarization_array.tolist()):
        _close(ctx, out.data_array[:, k], want[p], f"{what} pol {p}")
    if not (cross and len(fe) == 2):
        ctx.check(not np.iscomplexobj(out.data_array), f"{what}: auto power is complex")
    d = canon.diff(s, out, ignore={"data_array", "history", "polarization_array", "Npols", "Nfeeds", "feed_array", "Naxes_vec", "Ncomponents_vec", "basis_vector_array", "beam_type"}, exact=True)
    ctx.check(not d, lambda: f"{what} changed {d[:2]}")
    ctx.check(out.beam_type == "power" and out.feed_array is None and (out.basis_vector_array is None) == (not keep), f"{what}: left-over metadata")
    out.check(check_auto_power=True)
    ctx.raises(ValueError, lambda: out.efield_to_power(), "converting a power beam")
    for e, v in (("to_power", True), ("power_vec", keep), ("power_rotated", not np.isin(B, [0, 1]).all() and not keep), ("power_skewed", not keep and np.abs(np.einsum("c...,c...->...", B[0], B[1])).max() > 0.01 and cross and len(fe) == 2), ("power_1feed", len(fe) == 1), ("power_auto_only", not cross), ("already_power_refused", True)):
        if v:
            ctx.ev(e)


def pstokes(ctx):
    rng = ctx.rng
    b = gen.make_beam(rng, beam_type="efield", phased=False, nfeeds=2, bv="aligned")
    ctx.case(bc.describe(b))
    s = canon.snap(b)
    inplace = bool(rng.integers(2))
    r = b.copy()
    o = r.efield_to_pstokes(inplace=inplace)
    o = r if inplace else o
    if not inplace:
        ctx.check(not canon.diff(s, r, exact=True), "efield_to_pstokes(inplace=False) changed the original")
    E = s["data_array"]
    sig = [np.eye(2), np.diag([1.0, -1]), np.array([[0, 1], [1, 0.0]]), np.array([[0, -1j], [1j, 0]])]
    ctx.check(o.polarization_array.tolist() == [1, 2, 3, 4], f"polarizations {o.polarization_array}")
    for k, m in enumerate(sig):
        w = 0.5 * np.abs(np.einsum("ab,bc...,cd,ad...->...", m, E, m, np.conj(E)))
        _close(ctx, o.data_array[0, k], w, f"pseudo-Stokes {k}")
    ctx.check(o.beam_type == "power" and o.Npols == 4 and o.Naxes_vec == 1, "metadata")
    d = canon.diff(s, o, ignore={"data_array", "history", "polarization_array", "Npols", "Nfeeds", "feed_array", "Naxes_vec", "Ncomponents_vec", "basis_vector_array", "beam_type"}, exact=True)
    ctx.check(not d, lambda: f"efield_to_pstokes changed {d[:2]}")
    o.check()
    ctx.ev("pstokes")


def peak(ctx):
    rng = ctx.rng
    b = gen.make_beam(rng)
    ctx.case(bc.describe(b))
    s = canon.snap(b)
    b.peak_normalize()
    mx = np.abs(s["data_array"]).max(axis=tuple(i for i in range(s["data_array"].ndim) if i != 2))
    sh = [1] * s["data_array"].ndim
    sh[2] = -1
    _close(ctx, b.data_array, s["data_array"] / mx.reshape(sh), "peak normalisation")
    _close(ctx, b.bandpass_array, s["bandpass_array"] * mx, "bandpass after peak normalisation")
    d = canon.diff(s, b, ignore={"data_array", "bandpass_array", "data_normalization"}, exact=True)
    ctx.check(not d and b.data_normalization == "peak", lambda: f"peak_normalize changed {d[:2]}")
    ctx.ev("peak_normalize")


def _freqs(ctx, b):
    """(request, expected weights on the stored channels) or None"""
    rng = ctx.rng
    n = b.Nfreqs
    k = gen.pick(rng, ["none", "samples", "linear", "nearest"])
    if n < 2 and k == "linear":
        k = "nearest"
    if k == "none":
        return None, np.eye(n), {}
    if k == "samples":
        i = rng.integers(0, n, int(rng.integers(1, n + 2)))
        ctx.ev("freq_at_samples")
        kw = {"freq_interp_kind": gen.pick(rng, ["linear", "nearest", None])}
        return b.freq_array[i].copy(), np.eye(n)[i], kw
    if k == "nearest":
        i = rng.integers(0, n, int(rng.integers(1, n + 2)))
        f = b.freq_array[i] + rng.uniform(-0.3, 0.3, len(i)) * 1e6
        ctx.ev("freq_nearest")
        return f, np.eye(n)[i], {"freq_interp_kind": "nearest"}
    o = np.argsort(b.freq_array)
    m = int(rng.integers(1, 5))
    f = rng.uniform(b.freq_array.min(), b.freq_array.max(), m)
    if rng.integers(2):
        f[0] = b.freq_array[int(rng.integers(n))]
    W = np.stack([np.interp(f, b.freq_array[o], np.eye(n)[j][o]) for j in range(n)], axis=1)
    ctx.ev("freq_linear")
    return f, W, {"freq_interp_kind": "linear"}


def _wt_az(grid, q, wrap):
    """bilinear weights on the azimuth axis"""
    n = len(grid)
    W = np.zeros((len(q), n))
    for r, x in enumerate(q):
        if wrap:
            step = 2 * np.pi / n
            u = (x - grid[0]) / step
            i = int(np.floor(u))
            t = u - i
            W[r, i % n] += 1 - t
            W[r, (i + 1) % n] += t
        else:
            i = min(max(int(np.searchsorted(grid, x, side="right")) - 1, 0), n - 2)
            t = (x - grid[i]) / (grid[i + 1] - grid[i])
            W[r, i] += 1 - t
            W[r, i + 1] += t
    return W


def _polreq(ctx, b):
    if b.beam_type == "efield" or ctx.rng.integers(2):
        n = b.Nfeeds if b.beam_type == "efield" else b.Npols
        return None, list(range(n))
    rng = ctx.rng
    i = [int(v) for v in rng.permutation(b.Npols)[: int(rng.integers(1, b.Npols + 1))]]
    ctx.ev("pol_subset")
    return [NAME[int(b.polarization_array[j])] for j in i], i


def _mkgrid(ctx, **k):
    rng = ctx.rng
    full = bool(rng.integers(2))
    b = gen.make_beam(rng, grid="az_za", bv="aligned", full_sky=full, naz=int(rng.integers(5, 13)), **k)
    return b, full


def interp(ctx):
    rng = ctx.rng
    b, full = _mkgrid(ctx)
    s = canon.snap(b)
    hist = []
    for _ in range(int(rng.integers(1, 4))):
        mode = gen.pick(rng, ["samples", "bilinear", "freq_only", "op"])
        if mode == "op":
            op = gen.pick(rng, ["select", "peak", "power", "pstokes"])
            if op == "select" and b.Nfreqs > 1:
                b.select(freq_chans=_some(rng, b.Nfreqs))
            elif op == "select" and b.beam_type == "power":
                b.select(polarizations=[int(b.polarization_array[i]) for i in _some(rng, b.Npols)])
            elif op == "peak":
                b.peak_normalize()
            elif op == "power" and b.beam_type == "efield" and b.antenna_type == "simple":
                b.efield_to_power()
            elif op == "pstokes" and b.beam_type == "efield" and b.Nfeeds == 2 and b.antenna_type == "simple":
                b.efield_to_pstokes()
            hist.append(op)
            s = canon.snap(b)
            continue
        fr, W, kw = _freqs(ctx, b)
        pols, pi = _polreq(ctx, b)
        D = np.einsum("gf,vpf...->vpg...", W, s["data_array"][:, pi])
        if fr is not None:
            kw["freq_array"] = fr
        if pols is not None:
            kw["polarizations"] = pols
        kw["return_bandpass"] = True
        if b.antenna_type == "phased_array":
            kw["return_coupling"] = True
        if mode == "freq_only" and fr is not None:
            got = b.interp(**kw)
            _close(ctx, got[0], D, f"frequency interpolation {_k(kw)} after {hist}")
        else:
            if mode == "freq_only":
                mode = "samples"
            m = int(rng.integers(1, 9)) if rng.integers(3) else 40
            if mode == "samples":
                i1, i2 = rng.integers(0, b.Naxes1, m), rng.integers(0, b.Naxes2, m)
                az, za = b.axis1_array[i1].copy(), b.axis2_array[i2].copy()
                want = D[..., i2, i1]
                if rng.integers(2):
                    kw["spline_opts"] = {"kx": int(rng.integers(1, 4)), "ky": int(rng.integers(1, 4))}
                ctx.ev("at_samples")
                tol = 1e-8
            else:
                hi = b.axis1_array[-1] + (0.999 * (b.axis1_array[1] - b.axis1_array[0]) if full else 0)
                az, za = rng.uniform(b.axis1_array[0], hi, m), rng.uniform(b.axis2_array[0], b.axis2_array[-1], m)
                if full and (az > b.axis1_array[-1]).any():
                    ctx.ev("wrap")
                W1, W2 = _wt_az(b.axis1_array, az, full), _wt_az(b.axis2_array, za, False)
                want = np.einsum("vpfza,nz,na->vpfn", D, W2, W1)
                kw["spline_opts"] = {"kx": 1, "ky": 1}
                ctx.ev("bilinear")
                tol = 1e-9
            if rng.integers(2):
                kw["reuse_spline"] = True
                ctx.ev("reuse_spline")
                if any(h in ("select", "peak", "power", "pstokes") for h in hist) and "reuse" in hist:
                    ctx.ev("reuse_after_op")
                hist.append("reuse")
            what = f"interp({_k(kw)}) at {mode} after {hist}"
            got = b.interp(az_array=az, za_array=za, **kw)
            _close(ctx, got[0], want, what, tol)
            if b.beam_type == "efield":
                bv = np.zeros((2, 2, m))
                bv[0, 0] = bv[1, 1] = 1
                _close(ctx, got[1], bv, what + " basis vectors")
            o = rng.permutation(m)
            g2 = b.interp(az_array=az[o], za_array=za[o], **kw)
            _close(ctx, g2[0], got[0][..., o], what + " in another order", 1e-12)
            h = int(rng.integers(1, m + 1))
            g3 = b.interp(az_array=az[:h], za_array=za[:h], **kw)
            _close(ctx, g3[0], got[0][..., :h], what + " in a smaller batch", 1e-12)
            ctx.ev("batch")
        _close(ctx, got[2], W @ s["bandpass_array"], f"interp({_k(kw)}) bandpass")
        ctx.ev("bandpass")
        if b.antenna_type == "phased_array":
            _close(ctx, got[3], np.einsum("gf,abcdf->abcdg", W, s["coupling_matrix"]), "coupling matrix")
            ctx.ev("coupling")
        d = canon.diff(s, b, exact=True)
        ctx.check(not d, lambda: f"interp changed the beam: {d[:2]}")
        hist.append(mode)
    ctx.case(bc.describe(b), hist)


def _some(rng, n):
    return [int(v) for v in np.sort(rng.permutation(n)[: int(rng.integers(1, n + 1))])]


def _k(kw):
    return {k: v for k, v in kw.items() if k not in ("return_bandpass",)}


def cubic(ctx):
    """frequency batches of the default cubic interpolation, and cubic polynomials reproduced exactly"""
    rng = ctx.rng
    b, _ = _mkgrid(ctx, nfreq=int(rng.integers(4, 8)), phased=False)
    x = (b.freq_array - b.freq_array.mean()) / 1e7
    co = rng.normal(size=(4,) + b.data_array[:, :, 0].shape)
    val = lambda y: np.moveaxis(sum(co[k][..., None] * y**k for k in range(4)), -1, 2)  # noqa: E731
    b.data_array = val(x).astype(b.data_array.dtype)
    f = rng.uniform(b.freq_array.min(), b.freq_array.max(), int(rng.integers(1, 6)))
    ctx.case(bc.describe(b), f)
    new = bool(rng.integers(2))
    if new:
        r = b.interp(freq_array=f, new_object=True)
        d, bp = r.data_array, r.bandpass_array
        _close(ctx, r.freq_array, f, "frequencies")
        ctx.check(r.loss_array is None and r.s_parameters is None and r.Nfreqs == len(f), "frequency-dependent extras kept")
        ctx.ev("new_object_freq")
    else:
        d, _, bp = b.interp(freq_array=f, return_bandpass=True)
    _close(ctx, d, val((f - b.freq_array.mean()) / 1e7), "cubic frequency interpolation", 1e-7)
    k = int(rng.integers(len(f)))
    d1, _, b1 = b.interp(freq_array=f[k : k + 1], return_bandpass=True)
    _close(ctx, d1[:, :, 0], d[:, :, k], "one frequency at a time", 1e-9)
    _close(ctx, b1[0], bp[k], "bandpass one frequency at a time", 1e-9)
    ctx.raises(ValueError, lambda: b.interp(freq_array=np.array([b.freq_array.max() + 2e6])), "a frequency outside the beam")
    ctx.ev("freq_outside_refused")
    ctx.ev("freq_cubic")


def newgrid(ctx):
    rng = ctx.rng
    b, full = _mkgrid(ctx)
    s = canon.snap(b)
    fr, W, kw = _freqs(ctx, b)
    pols, pi = _polreq(ctx, b)
    if fr is not None:
        kw["freq_array"] = fr
    if pols is not None:
        kw["polarizations"] = pols
        ctx.ev("new_object_pols")
    a = np.linspace(b.axis1_array[0], b.axis1_array[-1], int(rng.integers(2, 9)))
    z = np.linspace(b.axis2_array[0], b.axis2_array[-1], int(rng.integers(2, 9)))
    D = np.einsum("gf,vpf...->vpg...", W, s["data_array"][:, pi])
    want = np.einsum("vpfza,nz,ma->vpfnm", D, _wt_az(b.axis2_array, z, False), _wt_az(b.axis1_array, a, full))
    what = f"interp(new_object=True, {_k(kw)})"
    freq_only = fr is not None and rng.integers(3) == 0
    if freq_only:
        r = b.interp(new_object=True, **kw)
        want = D
    else:
        r = b.interp(az_array=a, za_array=z, az_za_grid=True, new_object=True, spline_opts={"kx": 1, "ky": 1}, **kw)
        _close(ctx, r.axis1_array, a, "axis 1")
        _close(ctx, r.axis2_array, z, "axis 2")
    if b.beam_type == "power":
        ctx.check(r.polarization_array.tolist() == [int(s["polarization_array"][i]) for i in pi], lambda: f"{what}: polarizations {r.polarization_array}")
        if not np.isin(r.polarization_array, [-3, -4, -7, -8]).any():
            want = want.real
    _close(ctx, r.data_array, want, what)
    _close(ctx, r.bandpass_array, W @ s["bandpass_array"], what + " bandpass")
    _close(ctx, r.freq_array, s["freq_array"] if fr is None else fr, what + " frequencies")
    if b.antenna_type == "phased_array":
        _close(ctx, r.coupling_matrix, np.einsum("gf,abcdf->abcdg", W, s["coupling_matrix"]), "coupling matrix")
    r.check()
    d = canon.diff(s, r, only={"telescope_name", "feed_name", "model_name", "x_orientation", "beam_type", "feed_array", "data_normalization", "extra_keywords", "antenna_type", "delay_array"}, exact=True)
    ctx.check(not d, lambda: f"{what}: {d[:2]}")
    ctx.check(not canon.diff(s, b, exact=True), f"{what} changed the original")
    common.hist_kept(ctx, s["history"], r.history, what)
    ctx.ev("new_object_grid")
    ctx.case(bc.describe(b), kw)


def refuse(ctx):
    rng = ctx.rng
    k = gen.pick(rng, ["outside", "misaligned", "hp_partial", "hp_order"])
    if k == "outside":
        b = gen.make_beam(rng, grid="az_za", bv="aligned", full_sky=False)
        az, za = np.array([b.axis1_array[0]]), np.array([b.axis2_array[-1] + 1.2])
        if rng.integers(2):
            az, za = np.array([b.axis1_array[-1] + 1.5]), np.array([b.axis2_array[0]])
        if rng.integers(2):
            az, za = np.concatenate([np.full(30, b.axis1_array[0]), az]), np.concatenate([np.full(30, b.axis2_array[0]), za])
        ctx.raises(ValueError, lambda: b.interp(az_array=az, za_array=za), "directions outside the beam")
        ctx.ev("outside_refused")
    elif k == "misaligned":
        b = gen.make_beam(rng, beam_type="efield", bv="aligned", full_sky=True, ordering="ring")
        b.basis_vector_array = b.basis_vector_array.copy()
        t = float(rng.uniform(0.1, 1.4)) * (1 if rng.integers(2) else -1)
        i = int(rng.integers(b.basis_vector_array.shape[-1]))
        v = [[np.cos(t), np.sin(t)], [-np.sin(t), np.cos(t)]] if rng.integers(2) else [[np.cos(t), -np.sin(abs(t))], [-np.sin(abs(t)), np.cos(t)]]
        for p in range(2):
            for q in range(2):
                b.basis_vector_array[p, q, ..., i] = v[p][q] * (1 - 1e-9)
        b.check()
        ctx.raises(NotImplementedError, lambda: b.interp(az_array=np.array([1.0]), za_array=np.array([0.5])), "interpolating a beam with rotated basis vectors")
        ctx.ev("misaligned_refused")
    elif k == "hp_partial":
        b = gen.make_beam(rng, grid="healpix", bv="aligned", full_sky=False)
        ctx.raises(ValueError, lambda: b.interp(az_array=np.array([1.0]), za_array=np.array([0.5])), "interpolating a partial HEALPix map")
        ctx.ev("healpix_partial_refused")
    else:
        b = gen.make_beam(rng, grid="healpix", bv="aligned", full_sky=True)
        o = np.arange(b.Npixels)[::-1] if rng.integers(2) else rng.permutation(b.Npixels)
        b.pixel_array = b.pixel_array[o]
        b.data_array = b.data_array[..., o]
        ctx.raises(ValueError, lambda: b.interp(az_array=np.array([1.0]), za_array=np.array([0.5])), "interpolating a HEALPix map with reordered pixels")
        ctx.ev("healpix_unordered_refused")
    ctx.case(k, bc.describe(b))


def healpix(ctx):
    from astropy import units
    from astropy_healpix import HEALPix

    rng = ctx.rng
    b = gen.make_beam(rng, grid="healpix", bv="aligned", full_sky=True)
    s = canon.snap(b)
    hp = HEALPix(nside=b.nside, order=b.ordering)
    fr, W, kw = _freqs(ctx, b)
    pols, pi = _polreq(ctx, b)
    D = np.einsum("gf,vpf...->vpg...", W, s["data_array"][:, pi])
    if fr is not None:
        kw["freq_array"] = fr
    if pols is not None:
        kw["polarizations"] = pols
    m = int(rng.integers(1, 12))
    if rng.integers(2):
        i = rng.integers(0, b.Npixels, m)
        lon, lat = hp.healpix_to_lonlat(i)
        az, za = lon.to_value("rad"), np.pi / 2 - lat.to_value("rad")
        want = D[..., i]
        ctx.ev("healpix_centers")
    else:
        az, za = rng.uniform(0, 2 * np.pi, m), np.arccos(rng.uniform(-1, 1, m))
        ind, w = hp.bilinear_interpolation_weights(az * units.rad, (np.pi / 2 - za) * units.rad)
        want = np.sum(D[..., ind] * w, axis=-2)
    what = f"healpix interp({_k(kw)})"
    got = b.interp(az_array=az, za_array=za, return_bandpass=True, **kw)
    _close(ctx, got[0], want, what, 1e-8)
    _close(ctx, got[2], W @ s["bandpass_array"], what + " bandpass")
    o = rng.permutation(m)
    g2 = b.interp(az_array=az[o], za_array=za[o], **kw)
    _close(ctx, g2[0], got[0][..., o], what + " in another order", 1e-12)
    ctx.check(not canon.diff(s, b, exact=True), "interp changed the beam")
    ctx.ev("healpix_interp")
    if rng.integers(2) and pols is None:
        # a new object on another HEALPix grid
        ns = int(gen.pick(rng, [1, 2, 4]))
        h2 = HEALPix(nside=ns)
        inds = None if rng.integers(2) else np.sort(rng.permutation(12 * ns**2)[:7])
        r = b.interp(healpix_nside=ns, healpix_inds=inds, new_object=True, **kw)
        use = np.arange(12 * ns**2) if inds is None else inds
        lon, lat = h2.healpix_to_lonlat(use)
        w2 = b.interp(az_array=lon.to_value("rad"), za_array=np.pi / 2 - lat.to_value("rad"), **kw)[0]
        _close(ctx, r.data_array, w2, "new HEALPix grid", 1e-9)
        ctx.check(r.nside == ns and r.ordering == "ring" and np.array_equal(r.pixel_array, use), "new HEALPix grid labels")
    if s["beam_type"] == "power":
        b.peak_normalize()
        j = int(rng.integers(b.Npols))
        p = int(b.polarization_array[j])
        pp = p if rng.integers(2) else NAME[p]
        om = 4 * np.pi / (12 * b.nside**2)
        _close(ctx, b.get_beam_area(pp), b.data_array[0, j].sum(axis=-1) * om, "beam area")
        _close(ctx, b.get_beam_sq_area(pp), (b.data_array[0, j] ** 2).sum(axis=-1) * om, "beam squared area")
        ctx.ev("area")
        ctx.ev("sq_area")
    ctx.case(bc.describe(b), kw, az[:2])


def to_hpx(ctx):
    from astropy_healpix import HEALPix

    rng = ctx.rng
    b, full = _mkgrid(ctx, phased=False)
    s = canon.snap(b)
    ns = None if rng.integers(2) else int(gen.pick(rng, [2, 4, 8]))
    if ns is not None and np.sqrt(np.pi / 3) / ns >= min(np.diff(b.axis1_array)[0], np.diff(b.axis2_array)[0]):
        ns = None  # a map coarser than the beam can be refused
    if rng.integers(2):
        r = b.to_healpix(nside=ns, inplace=False)
        ctx.check(not canon.diff(s, b, exact=True), "to_healpix(inplace=False) changed the original")
    else:
        r = b.copy()
        r.to_healpix(nside=ns)
    if ns is not None:
        ctx.check(r.nside == ns, f"nside {r.nside}")
    hp = HEALPix(nside=int(r.nside))
    res = hp.pixel_resolution.to_value("rad")
    if ns is None:
        ctx.check(res <= min(np.diff(b.axis1_array)[0], np.diff(b.axis2_array)[0]), "the default nside is coarser than the beam")
    lon, lat = hp.healpix_to_lonlat(np.arange(hp.npix))
    lon, za = lon.to_value("rad"), np.pi / 2 - lat.to_value("rad")
    dphi = np.abs(lon[:, None] - b.axis1_array[None] % (2 * np.pi))
    dphi = np.minimum(dphi, 2 * np.pi - dphi).min(axis=1)
    dth = np.abs(za[:, None] - b.axis2_array[None]).min(axis=1)
    d2 = dphi**2 + dth**2
    lim = 4 * res**2
    sure = np.nonzero(d2 < lim * (1 - 1e-9))[0]
    maybe = np.nonzero(d2 < lim * (1 + 1e-9))[0]
    pix = np.asarray(r.pixel_array)
    ctx.check(set(sure) <= set(pix.tolist()) <= set(maybe), lambda: f"to_healpix kept {len(pix)} pixels, expected {len(sure)}: {sorted(set(sure) ^ set(pix.tolist()))[:5]}")
    w = b.interp(az_array=lon[pix], za_array=za[pix])[0]
    _close(ctx, r.data_array, w, "to_healpix values", 1e-9)
    inside = (za[pix] <= b.axis2_array[-1]) & (za[pix] >= b.axis2_array[0]) & (full | ((lon[pix] >= b.axis1_array[0]) & (lon[pix] <= b.axis1_array[-1])))
    r1 = b.interp(az_array=lon[pix][inside], za_array=za[pix][inside], spline_opts={"kx": 1, "ky": 1})[0]
    want = np.einsum("vpfza,nz,na->vpfn", s["data_array"], _wt_az(b.axis2_array, za[pix][inside], False), _wt_az(b.axis1_array, lon[pix][inside], full))
    _close(ctx, r1, want, "bilinear at the pixel centers", 1e-9)
    ctx.check(r.pixel_coordinate_system == "healpix" and r.ordering == "ring" and r.axis1_array is None, "labels after to_healpix")
    d = canon.diff(s, r, only={"freq_array", "bandpass_array", "polarization_array", "feed_array", "loss_array", "telescope_name", "extra_keywords", "x_orientation", "data_normalization"}, exact=True)
    ctx.check(not d, lambda: f"to_healpix changed {d[:2]}")
    r.check()
    ctx.ev("to_healpix")
    ctx.case(bc.describe(b), ns)


def smooth(ctx):
    """a smooth beam is interpolated smoothly all around, whether or not the last azimuth repeats the first one"""
    rng = ctx.rng
    closed = bool(rng.integers(2))
    naz = int(rng.integers(36, 60))
    az = np.linspace(0, 2 * np.pi, naz + 1) if closed else np.arange(naz) * 2 * np.pi / naz
    if not closed and rng.integers(2):
        az = az + rng.uniform(0, 0.9) * az[1]
    za = np.linspace(0, np.pi / 2, int(rng.integers(14, 25)))
    b = gen.make_beam(rng, grid="az_za", full_sky=True, naz=len(az), nza=len(za), bv="aligned", beam_type=gen.pick(rng, ["efield", "power"]), nfreq=1, phased=False)
    c = rng.uniform(-1, 1, b.data_array.shape[:3] + (5,))

    def val(a, z):
        return c[..., 0, None] + (c[..., 1, None] * np.cos(a) + c[..., 2, None] * np.sin(a)) * np.sin(z) + (c[..., 3, None] * np.cos(2 * a) + c[..., 4, None] * np.sin(2 * a)) * np.sin(z) ** 2

    b.axis1_array, b.axis2_array = az, za
    A, Z = np.meshgrid(az, za)
    b.data_array = val(A.ravel(), Z.ravel()).reshape(b.data_array.shape).astype(b.data_array.dtype)
    n = int(rng.integers(10, 60))
    a, z = rng.uniform(0, 2 * np.pi, n), rng.uniform(0.02, 1.55, n)
    a[:6] = (az[0] + rng.uniform(-1.5, 1.5, 6) * (az[1] - az[0])) % (2 * np.pi)
    if not closed:
        a[a < az[0]] += 2 * np.pi
        a = np.where(a > az[-1] + 2 * (az[1] - az[0]), az[0], a)
    got = b.interp(az_array=a, za_array=z, freq_array=b.freq_array if rng.integers(2) else None)[0]
    w = val(a, z)
    e = np.abs(got - w).max()
    ctx.check(e < 3e-3, lambda: f"a smooth beam on {'a closed' if closed else 'an open'} azimuth grid of {naz} is interpolated with an error of {e:.3g} at azimuth {a[np.argmax(np.abs(got - w).max(axis=(0, 1, 2)))]:.4f}")
    ctx.ev("smooth_closed" if closed else "smooth_open")
    ctx.case("smooth", closed, naz, len(za), b.beam_type, round(float(c.sum()), 6))


SCENARIOS = [Scenario("smooth", smooth, 80, 1000), Scenario("power", power, 300, 3000), Scenario("pstokes", pstokes, 80, 600), Scenario("peak", peak, 80, 600), Scenario("interp", interp, 700, 6000), Scenario("cubic", cubic, 120, 1000),
             Scenario("newgrid", newgrid, 250, 2500), Scenario("refuse", refuse, 120, 800), Scenario("healpix", healpix, 250, 2500), Scenario("to_hpx", to_hpx, 60, 500)]
