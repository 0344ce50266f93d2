"""C26 Beam simulations are read as the fields they hold."""
import os
import warnings

import h5py
import numpy as np
import yaml
from scipy.special import gammaln

from pyuvdata import UVBeam
from pyuvdata.data import DATA_PATH
from vmon import canon
from vmon.core import Scenario

RULE = (
    "synthetic CST exports (random grids, column orders, units and headers, one field value per direction) read one at a time, in lists over frequency and feed in any order, and through settings files, "
    "against the table they were written from; synthetic MWA embedded-element files (random modes, dipole counts, mode counts, delays, amplitudes, terminated dipoles, frequency ranges) against an independent evaluation of the "
    "vector spherical harmonics; the distributed MWA file against the directions its delays point to and an ideal dipole. non-trivial = distinct (format, grid, feeds, options)"
)
REQUIRED = ["cst_efield", "cst_power", "rot", "norot", "names_freq", "list_freq", "list_feed", "yaml", "yaml_select", "yaml_override", "rad", "deg", "voltage_column", "refused",
            "mwa", "mwa_terminated", "mwa_range", "mwa_many_dipoles", "mwa_uneven_modes", "pointing", "inputs_unchanged", "mwa_dipole"]

MWAFILE = os.path.join(DATA_PATH, "mwa_full_EE_test.h5")
FLIP = {"x": "y", "y": "x", "xx": "yy", "yy": "xx", "xy": "yx", "yx": "xy"}
NUM = {"xx": -5, "yy": -6, "xy": -7, "yx": -8}


class Sim:
    """One CST export: what it says, and its text form."""

    def __init__(self, rng, nth, nph, power):
        self.nth, self.nph = nth, nph
        dth = float(rng.choice([1.0, 2.5, 5.0, 10.0, 180 / max(1, nth - 1)]))
        if dth * (nth - 1) > 180:
            dth = 180 / (nth - 1)
        self.th = np.arange(nth) * dth
        self.ph = np.arange(nph) * (360.0 / nph)
        sh = (nth, nph)
        self.at, self.ap = rng.uniform(0.01, 30, sh), rng.uniform(0.01, 30, sh)
        self.pt, self.pp = rng.uniform(0, 360, sh), rng.uniform(0, 360, sh)
        self.tot = rng.uniform(0.01, 30, sh)

    def write(self, rng, path, rad, volt):
        ang = "rad." if rad else "deg."
        f = np.pi / 180 if rad else 1.0
        th, ph = np.broadcast_arrays(self.th[:, None], self.ph[None, :])
        tot = "V" if volt else "E"
        u = "V   " if volt else "V/m "
        cols = [(f"Abs({tot})[{u}]", self.tot), (f"Abs(Theta)[{u}]", self.at), (f"Phase(Theta)[{ang}]", self.pt * f), (f"Abs(Phi  )[{u}]", self.ap),
                (f"Phase(Phi  )[{ang}]", self.pp * f), ("Ax.Ratio[      ]", np.ones_like(self.at))]
        cols = [cols[i] for i in rng.permutation(len(cols))]
        cols = [(f"Theta [{ang}]", th * f), (f"Phi   [{ang}]", ph * f)] + cols
        with open(path, "w") as fh:
            fh.write("  ".join(c[0] for c in cols) + "   \n")
            fh.write("-" * 60 + "\n")
            np.savetxt(fh, np.array([c[1].ravel(order="F") for c in cols]).T, fmt="%.17g")

    def field(self):
        return np.array([self.ap * np.exp(1j * np.radians(self.pp)), self.at * np.exp(1j * np.radians(self.pt))])


def rotate(a, nph):
    """the same pattern turned by 90 degrees in azimuth"""
    k = nph // 4
    out = np.empty_like(a)
    for j in range(nph):
        out[..., (j + k) % nph] = a[..., j]
    return out


def compare(ctx, b, want, freqs, feeds, power, sim, what):
    """want[freq][feed] -> (vec, th, ph) array"""
    ctx.check(b.beam_type == ("power" if power else "efield") and b.pixel_coordinate_system == "az_za" and b.antenna_type == "simple" and b.data_normalization == "physical", f"{what}: {b.beam_type} {b.pixel_coordinate_system}")
    got = [int(p) for p in b.polarization_array] if power else list(b.feed_array)
    exp = [NUM[f] for f in feeds] if power else feeds
    ctx.check(sorted(got) == sorted(exp) and len(got) == len(exp), f"{what}: feeds or polarizations {got} instead of {exp}")
    ctx.check(np.allclose(np.sort(b.freq_array), np.sort(freqs), rtol=1e-12, atol=0) and b.Nfreqs == len(freqs), f"{what}: frequencies {b.freq_array} instead of {freqs}")
    ctx.check(np.allclose(b.axis1_array, np.radians(sim.ph), atol=1e-12) and np.allclose(b.axis2_array, np.radians(sim.th), atol=1e-12), f"{what}: axes {b.axis1_array[:4]} {b.axis2_array[:4]}")
    ctx.check(np.array_equal(b.bandpass_array, np.ones(len(freqs))), f"{what}: bandpass {b.bandpass_array}")
    for i, f in enumerate(b.freq_array):
        k = int(np.argmin(np.abs(np.asarray(freqs) - f)))
        for j, p in enumerate(got):
            w = want[k][exp.index(p)]
            g = b.data_array[:, j, i]
            ctx.ev("beams_compared")
            ctx.check(g.shape == w.shape and np.allclose(g, w, rtol=1e-12, atol=0), lambda: f"{what}: field of {p} at {f} Hz differs at {np.argwhere(~np.isclose(g, w, rtol=1e-12))[:4].tolist() if g.shape == w.shape else (g.shape, w.shape)}")
    if not power:
        bv = b.basis_vector_array
        ctx.check(np.all(bv[0, 0] == 1) and np.all(bv[1, 1] == 1) and np.all(bv[0, 1] == 0) and np.all(bv[1, 0] == 0), f"{what}: basis vectors")
    else:
        ctx.check(b.data_array.dtype.kind == ("c" if set(exp) & {-7, -8} else "f"), f"{what}: power beam of dtype {b.data_array.dtype}")


def fname(rng, d, f, named, k):
    if not named:
        return os.path.join(d, f"farfield_{k}_[1].txt")
    pre = str(rng.choice(["", "HERA_Sim_", "v2_", "beam 3_"]))
    u, s = [("MHz", 1e6), ("GHz", 1e9), ("kHz", 1e3), ("Hz", 1)][rng.choice(4, p=[0.6, 0.15, 0.15, 0.1])]
    v = repr(f / s)
    if "e" in v:
        v, u = repr(f / 1e6), "MHz"
    return os.path.join(d, f"{pre}{v}{u}.txt" if rng.random() < 0.7 else f"{pre}{v}{u}_port1.txt")


def cst(ctx):
    rng = ctx.rng
    d = ctx.path("Hz 12 dir") if rng.random() < 0.3 else ctx.path("d")
    os.mkdir(d)
    power = bool(rng.integers(2))
    nth = int(rng.integers(2, 9))
    nph = 4 * int(rng.choice([1, 2, 3, 4, 5, 6, 9, 12, 18, 30])) if rng.random() < 0.85 else int(rng.integers(3, 12))
    nf = int(rng.integers(1, 4))
    freqs = [float(x) * float(rng.choice([1e6, 1.25e5])) for x in rng.choice(np.arange(80, 400), nf, replace=False)]
    mode = str(rng.choice(["single", "freqs", "feeds", "yaml"]))
    if mode == "single":
        freqs = freqs[:1]
    rad, volt = bool(rng.random() < 0.3), bool(rng.random() < 0.3)
    named = bool(rng.random() < 0.4)
    letters = ["xx", "yy", "xy", "yx"] if power else ["x", "y"]
    # files: (freq, feed)
    mixed = mode == "feeds" or (mode == "yaml" and rng.random() < 0.4)
    if mixed:
        # pieces are added one at a time: several feeds and several frequencies cannot be built up this way
        freqs = freqs[:1]
        fs = ["xx", "yy"] if power else ["x", "y"]
        files = [(f, p) for f in freqs for p in fs]
        files = [files[i] for i in rng.permutation(len(files))]
    else:
        fd = str(rng.choice(letters))
        files = [(f, fd) for f in freqs]
    if not mixed:
        files = [files[i] for i in rng.permutation(len(files))]
    rot = None if rng.random() < 0.4 else bool(rng.integers(2))
    if mixed:
        rot = None if rng.random() < 0.6 else False
    do_rot = rot if rot is not None else not mixed
    if nph % 4 and do_rot:
        rot = do_rot = False
    sims, names = [], []
    base = Sim(rng, nth, nph, power)
    for k, (f, p) in enumerate(files):
        s = Sim(rng, nth, nph, power)
        s.th, s.ph = base.th, base.ph
        n = fname(rng, d, f, named, k)
        if os.path.exists(n):
            n = n[:-4] + f"_{k}.txt"
        s.write(rng, n, rad, volt)
        sims.append(s)
        names.append(n)
    want_feeds = []
    for _, p in files:
        for q in [p] + ([FLIP[p]] if do_rot else []):
            if q not in want_feeds:
                want_feeds.append(q)
    uf = sorted(set(freqs))
    want = {i: [None] * len(want_feeds) for i in range(len(uf))}
    for (f, p), s in zip(files, sims):
        a = s.tot[None] ** 2 if power else s.field()
        want[uf.index(f)][want_feeds.index(p)] = a
        if do_rot:
            want[uf.index(f)][want_feeds.index(FLIP[p])] = rotate(a, nph)
    ctx.case("cst", mode, power, nth, nph, files, rot, rad, volt, named, base.at[0, :2])
    for e in ("cst_power" if power else "cst_efield", "rot" if do_rot else "norot", "rad" if rad else "deg"):
        ctx.ev(e)
    if volt:
        ctx.ev("voltage_column")
    meta = {"telescope_name": "TEL", "feed_name": "F", "feed_version": "2.5", "model_name": "M", "model_version": "1.0"}
    kw = dict(beam_type="power" if power else "efield", rotate_pol=rot)
    xo = str(rng.choice(["east", "north"]))
    imp = float(rng.uniform(10, 200))
    extra = {"software": "CST 2016", "port": 3}
    feeds_arg = [p for _, p in files]
    # names of power polarizations may be given as the feed letter
    if power and set(feeds_arg) <= {"xx", "yy"} and rng.random() < 0.5:
        feeds_arg = [p[0] for p in feeds_arg]
    freq_arg = [f for f, _ in files]
    b = UVBeam()
    if mode != "yaml":
        ek = dict(extra)
        kw.update(meta, x_orientation=xo, reference_impedance=imp, extra_keywords=ek, history="H")
        if not named:
            kw["frequency"] = freq_arg if len(files) > 1 and (len(set(freq_arg)) > 1 or rng.random() < 0.5) else freq_arg[0]
            if isinstance(kw["frequency"], list) and rng.random() < 0.3:
                kw["frequency"] = np.array(kw["frequency"])
        else:
            ctx.ev("names_freq")
        kw["feed_pol"] = feeds_arg if mixed or (len(files) > 1 and rng.random() < 0.4) else feeds_arg[0]
        if isinstance(kw["feed_pol"], list) and rng.random() < 0.3:
            kw["feed_pol"] = np.array(kw["feed_pol"])
        arg = names if len(files) > 1 or rng.random() < 0.3 else names[0]
        if isinstance(arg, list) and rng.random() < 0.3:
            arg = np.array(arg)
        if mixed:
            ctx.ev("list_feed")
        if len(files) > 1:
            ctx.ev("list_freq")
        how = int(rng.integers(3))
        if how == 0:
            b.read_cst_beam(arg, **kw)
        elif how == 1:
            b.read(arg, file_type="cst" if rng.random() < 0.5 else None, **kw)
        else:
            b = UVBeam.from_file(arg, **kw)
        ctx.check(ek == extra, f"the extra keywords given were changed to {ek}")
        ctx.ev("inputs_unchanged")
        sel = list(range(len(uf)))
        exp_meta = dict(meta, x_orientation=xo, reference_impedance=imp, extra_keywords=extra)
        exp_files = [os.path.basename(n) for n in names]
    else:
        ctx.ev("yaml")
        y = os.path.join(d, "settings.yaml")
        cfg = dict(meta, history="H\n", frequencies=[f if rng.random() < 0.7 else repr(f) for f in freq_arg], filenames=[os.path.basename(n) for n in names],
                   feed_pol=feeds_arg if mixed or rng.random() < 0.3 else feeds_arg[0], software="CST 2016", port=3)
        exp_meta = dict(meta, extra_keywords=dict(software="CST 2016", port=3), x_orientation=None, reference_impedance=None)
        if rng.random() < 0.5:
            cfg["sim_beam_type"] = "E-farfield"
            exp_meta["extra_keywords"]["sim_type"] = "E-farfield"
        if rng.random() < 0.6:
            cfg["x_orientation"] = xo
            exp_meta["x_orientation"] = xo
        if rng.random() < 0.6:
            cfg["ref_imp"] = imp
            exp_meta["reference_impedance"] = imp
        with open(y, "w") as fh:
            yaml.safe_dump(cfg, fh)
        over = {}
        for k, v in (("telescope_name", "OTHER"), ("feed_name", "G"), ("feed_version", "9"), ("model_name", "N"), ("model_version", "8"), ("x_orientation", "north"), ("reference_impedance", 12.5)):
            if rng.random() < 0.12:
                over[k] = v
                exp_meta[k] = v
        if over:
            ctx.ev("yaml_override")
        sel = list(range(len(uf)))
        if len(uf) > 1 and rng.random() < 0.5:
            sel = [int(i) for i in rng.permutation(len(uf))[: int(rng.integers(1, len(uf) + 1))]]
            over["frequency_select"] = [uf[i] for i in sel]
            ctx.ev("yaml_select")
        given = dict(extra)
        if rng.random() < 0.3:
            over["extra_keywords"] = ek = {"mine": 5}
            exp_meta["extra_keywords"]["mine"] = 5
            given = ek
        with warnings.catch_warnings(record=True) as ws:
            warnings.simplefilter("always")
            if rng.random() < 0.5:
                b.read_cst_beam(y, **kw, **over)
            else:
                b = UVBeam.from_file(y, **kw, **over)
        said = " ".join(str(w.message) for w in ws)
        in_cfg = dict(cfg, reference_impedance=cfg.get("ref_imp"))
        for k in ("telescope_name", "feed_name", "feed_version", "model_name", "model_version", "x_orientation", "reference_impedance"):
            if in_cfg.get(k) is None:
                continue
            hit = f"The {k} keyword is set, overriding" in said
            ctx.check(hit == (k in over), f"settings file and keyword {k}: {'a' if hit else 'no'} warning about overriding, keywords given {sorted(over)}")
        if "extra_keywords" in over:
            ctx.check(given == {"mine": 5}, f"the extra keywords given were changed to {given}")
            ctx.ev("inputs_unchanged")
        keepf = {uf[i] for i in sel}
        exp_files = [os.path.basename(n) for n, (f, _) in zip(names, files) if f in keepf] + ["settings.yaml"]
    for k in ("telescope_name", "feed_name", "feed_version", "model_name", "model_version", "x_orientation"):
        ctx.check(getattr(b, k) == exp_meta[k], f"{k} is {getattr(b, k)!r}, not {exp_meta[k]!r}")
    ctx.check((b.reference_impedance is None and exp_meta["reference_impedance"] is None) or (b.reference_impedance is not None and exp_meta["reference_impedance"] is not None and np.isclose(b.reference_impedance, exp_meta["reference_impedance"])), f"reference impedance {b.reference_impedance} instead of {exp_meta['reference_impedance']}")
    ctx.check(dict(b.extra_keywords) == exp_meta["extra_keywords"], f"extra keywords {b.extra_keywords} instead of {exp_meta['extra_keywords']}")
    ctx.check(sorted(b.filename) == sorted(exp_files), f"file names {b.filename} instead of {exp_files}")
    ctx.check(b.history.startswith("H"), f"history {b.history!r}")
    compare(ctx, b, [want[i] for i in sel], [uf[i] for i in sel], want_feeds, power, base, mode)
    b.check()


def refuse(ctx):
    rng = ctx.rng
    d = ctx.path("d")
    os.mkdir(d)
    s = Sim(rng, int(rng.integers(3, 7)), 4 * int(rng.integers(2, 5)), False)
    kind = str(rng.choice(["hole", "uneven_theta", "uneven_phi", "rot", "nocol", "twocol", "len", "feedlen", "yaml_missing", "select_missing", "toomany"]))
    p = os.path.join(d, "a_150MHz.txt")
    s.write(rng, p, False, False)
    L = open(p).read().splitlines()
    kw = dict(beam_type=str(rng.choice(["power", "efield"])), frequency=150e6, rotate_pol=False, telescope_name="t", feed_name="f", feed_version="1", model_name="m", model_version="1")
    arg = p
    ctx.case(kind, s.nth, s.nph, kw["beam_type"], s.at[0, 0])
    if kind == "hole":
        L.pop(int(rng.integers(2, len(L))))
    elif kind == "uneven_theta":
        s.th = s.th.copy()
        s.th[-1] += 0.4
        s.write(rng, p, False, False)
        L = open(p).read().splitlines()
    elif kind == "uneven_phi":
        s.ph = s.ph.copy()
        s.ph[-1] += 0.4
        s.write(rng, p, False, False)
        L = open(p).read().splitlines()
    elif kind == "rot":
        n = int(rng.choice([3, 5, 6, 7, 9]))
        s = Sim(rng, 3, n, False)
        s.write(rng, p, False, False)
        L = open(p).read().splitlines()
        kw["rotate_pol"] = True
    elif kind == "nocol":
        kw["beam_type"] = "power"
        L[0] = L[0].replace("Abs(E)", "Abs(Q)")
    elif kind == "twocol":
        kw["beam_type"] = "power"
        L[0] = L[0].replace("Ax.Ratio", "Abs(V)")
    elif kind == "len":
        arg, kw["frequency"] = [p, p], [1e8, 2e8, 3e8]
    elif kind == "feedlen":
        arg, kw["feed_pol"] = [p, p], ["x", "y", "x"]
    elif kind == "toomany":
        kw[str(rng.choice(["frequency", "feed_pol"]))] = ["x", "y"]
    elif kind in ("yaml_missing", "select_missing"):
        cfg = dict(telescope_name="t", feed_name="f", feed_version="1", model_name="m", model_version="1", history="h", frequencies=[150e6], filenames=["a_150MHz.txt"], feed_pol="x")
        kw = dict(beam_type=kw["beam_type"])
        if kind == "yaml_missing":
            cfg.pop(sorted(cfg)[rng.integers(len(cfg))])
        else:
            kw["frequency_select"] = [151e6]
        arg = os.path.join(d, "s.yaml")
        yaml.safe_dump(cfg, open(arg, "w"))
    open(p, "w").write("\n".join(L) + "\n")
    ctx.raises(ValueError, lambda: UVBeam().read_cst_beam(arg, **kw), kind)
    ctx.ev("refused")


# ------------------------------------------------------------------ MWA
def modes_table(nmax):
    rows = []
    for n in range(1, nmax + 1):
        for m in range(-n, n + 1):
            for s in (1, 2):
                rows.append((s, m, n))
    return np.array(rows, dtype=float)


def legendre(nmax, x):
    """associated Legendre functions P_n^m(x) without the Condon-Shortley phase and their theta derivatives, by recurrence, in extended precision"""
    x = np.asarray(x, dtype=np.longdouble)
    s = np.sqrt(1 - x * x)
    P = {}
    for m in range(0, nmax + 2):
        if m == 0:
            P[0, 0] = np.ones_like(x)
        else:
            P[m, m] = (2 * m - 1) * s * P[m - 1, m - 1]
        if m + 1 <= nmax + 1:
            P[m + 1, m] = (2 * m + 1) * x * P[m, m]
        for n in range(m + 2, nmax + 2):
            P[n, m] = ((2 * n - 1) * x * P[n - 1, m] - (n + m - 1) * P[n - 2, m]) / (n - m)
    return P, s


def reference(mod, q1, q2, th, ph):
    """E_theta, E_phi from the definition: gradients and curls of normalised spherical harmonics, F_mn = sign(m)-phased N P_n^|m|(cos th) exp(i m ph)"""
    nmax = int(max(n for _, n in mod))
    # away from the pole; the pole itself is the limit, evaluated just beside it
    t = np.where(th == 0, 1e-6, np.where(th == np.pi, np.pi - 1e-6, th))
    x = np.cos(t.astype(np.longdouble))
    P, s = legendre(nmax, x)
    et = np.zeros((len(th), len(ph)), dtype=complex)
    ep = np.zeros_like(et)
    for (m, n), a, b in zip(mod, q1, q2):
        am = abs(m)
        norm = np.sqrt((2 * n + 1) / 2 * np.exp(gammaln(n - am + 1) - gammaln(n + am + 1))) / np.sqrt(n * (n + 1))
        # negative orders carry (-1)^m, positive ones none
        sgn = (-1.0) ** am if m < 0 else 1.0
        p = P[n, am]
        # d/dtheta P_n^m = ((n) cos P_n^m - (n+m) P_{n-1}^m) / sin
        dp = (n * x * p - (n + am) * (P[n - 1, am] if n - 1 >= am else 0)) / s
        az = np.exp(1j * m * ph)[None]
        f = (norm * sgn * p / s).astype(float)[:, None]
        df = (norm * sgn * dp).astype(float)[:, None]
        et += 1j**n * (b * df - m * a * f) * az
        ep += 1j ** (n + 1) * (m * b * f - a * df) * az
    return et, ep


def layout(ctx, b, k, et, ep, what, tol=2e-5):
    """which component sits where: the basis vectors say direction 0 is azimuth and 1 zenith angle"""
    g0, g1 = b.data_array[0, k[0], k[1]], b.data_array[1, k[0], k[1]]
    sc = max(np.abs(et).max(), np.abs(ep).max(), 1e-30)
    near = lambda a, w: np.abs(a - w).max() <= tol * sc
    bv = b.basis_vector_array
    if near(g0 * bv[0, 0] + g1 * bv[1, 0], ep) and near(g0 * bv[0, 1] + g1 * bv[1, 1], et):
        ctx.ev("oracle_evaluations")
        return
    ctx.check(near(g0, et) and near(g1, -ep) and np.all(bv[0, 0] == 1) and np.all(bv[1, 1] == 1),
              lambda: f"{what}: response differs from the modes by {np.abs(g0 - et).max() / sc:.3g}, {np.abs(g1 + ep).max() / sc:.3g} of its maximum")
    ctx.finding("mwa-beam-components-exchanged", f"{what}: data_array holds the zenith-angle component first and minus the azimuth component second, but basis_vector_array says azimuth first")


def mwa(ctx):
    rng = ctx.rng
    nd = int(rng.choice([1, 2, 3, 9, 10, 11, 16]))
    nfr = int(rng.integers(1, 4))
    freqs = np.sort(rng.choice(np.arange(50, 400), nfr, replace=False)) * 1000 * int(rng.choice([1000, 1280]))
    nmax_all = int(rng.integers(1, 5))
    path = ctx.path("mwa_beam.h5")
    tab = modes_table(nmax_all)
    Q = {}
    uneven = bool(rng.random() < 0.4)
    with h5py.File(path, "w") as h:
        h["modes"] = tab.T
        names = [(p, dp, f) for p in "XY" for dp in range(1, nd + 1) for f in freqs]
        for i in rng.permutation(len(names)):
            p, dp, f = names[i]
            nm = int(rng.integers(1, nmax_all + 1)) if uneven else nmax_all
            k = 2 * (nm * nm + 2 * nm)
            q = np.array([rng.uniform(0, 3, k), rng.uniform(-180, 180, k)])
            Q[p, dp, f] = q
            h[f"{p}{dp}_{f}"] = q
    if uneven:
        ctx.ev("mwa_uneven_modes")
    if nd > 9:
        ctx.ev("mwa_many_dipoles")
    delays = rng.integers(0, 32, (2, nd)) if rng.random() < 0.8 else None
    amps = rng.uniform(0, 2, (2, nd)) if rng.random() < 0.7 else None
    if delays is not None and rng.random() < 0.3:
        delays[rng.random((2, nd)) < 0.3] = 32
        if (delays == 32).any():
            ctx.ev("mwa_terminated")
    ppd = float(rng.choice([0.1, 0.2, 0.05, 0.025]))
    fr = None
    use = freqs
    if rng.random() < 0.4:
        lo, hi = np.sort(rng.choice(freqs, 2)) if rng.random() < 0.6 else (freqs[0] - 5, freqs[-1] + 5)
        fr = [float(lo), float(hi)]
        use = freqs[(freqs >= lo) & (freqs <= hi)]
        ctx.ev("mwa_range")
    ctx.case("mwa", nd, freqs, nmax_all, uneven, ppd, fr, delays is None, amps is None, delays if delays is None else delays.ravel()[:4])
    d0, a0 = (None if delays is None else delays.copy()), (None if amps is None else amps.copy())
    b = UVBeam()
    kw = dict(delays=delays, amplitudes=amps, pixels_per_deg=ppd, freq_range=fr)
    if rng.random() < 0.5:
        b.read_mwa_beam(path, **kw)
    else:
        b = UVBeam.from_file(path, **kw)
    ctx.ev("mwa")
    if d0 is not None:
        ctx.check(np.array_equal(delays, d0), "the delays given were changed")
    if a0 is not None:
        ctx.check(np.array_equal(amps, a0), "the amplitudes given were changed")
    ctx.ev("inputs_unchanged")
    ctx.check(list(b.feed_array) == ["x", "y"] and b.x_orientation == "east" and b.beam_type == "efield" and b.telescope_name == "MWA", "labels of the MWA beam")
    ctx.check(np.array_equal(b.freq_array, use.astype(float)) and b.Nfreqs == len(use), f"frequencies {b.freq_array} instead of {use}")
    nph, nth = int(np.floor(360 * ppd)), int(np.floor(90 * ppd)) + 1
    ph, th = np.radians(np.arange(nph) / ppd), np.radians(np.arange(nth) / ppd)
    ctx.check(b.axis1_array.shape == ph.shape and b.axis2_array.shape == th.shape and np.allclose(b.axis1_array, ph) and np.allclose(b.axis2_array, th), "axes of the MWA beam")
    dl = np.zeros((2, nd)) if d0 is None else d0
    am = np.ones((2, nd)) if a0 is None else a0.copy()
    am = np.where(dl == 32, 0, am)
    mod = [(int(m), int(n)) for s, m, n in tab if s == 1]
    for fi, f in enumerate(use):
        for pi, p in enumerate("XY"):
            q1, q2 = np.zeros(len(mod), complex), np.zeros(len(mod), complex)
            for dp in range(nd):
                v = am[pi, dp] * np.exp(-2j * np.pi * f * dl[pi, dp] * 435e-12)
                a, ang = Q[p, dp + 1, f]
                q = a * np.exp(1j * np.radians(ang)) * v
                q1[: len(q) // 2] += q[0::2]
                q2[: len(q) // 2] += q[1::2]
            et, ep = reference(mod, q1, q2, th, ph)
            ctx.ev("mwa_responses")
            layout(ctx, b, (pi, fi), et, ep, f"{p} at {f} Hz, {nd} dipoles")
    ctx.check(np.array_equal(b.bandpass_array, np.ones(len(use))), "bandpass")
    b.check()


def pointing(ctx):
    """the tile is four rows of four dipoles, numbered west to east from the north"""
    rng = ctx.rng
    east, north = np.tile([-1.65, -0.55, 0.55, 1.65], 4), np.repeat([1.65, 0.55, -0.55, -1.65], 4)
    for _ in range(200):
        step_e, step_n = int(rng.integers(-4, 5)), int(rng.integers(-4, 5))
        dl = np.round(step_e * (east / 1.1) + step_n * (north / 1.1)).astype(int)
        dl -= dl.min()
        if dl.max() <= 31 and (step_e or step_n):
            break
    fi = int(rng.integers(3))
    b = UVBeam()
    b.read_mwa_beam(MWAFILE, delays=np.array([dl, dl]), pixels_per_deg=1)
    f = b.freq_array[fi]
    # direction cosines pointed to: delay(dipole) * c = r . n
    c = 299792458.0
    A = np.array([east, north, np.ones(16)]).T
    l, m, _ = np.linalg.lstsq(A, dl * 435e-12 * c, rcond=None)[0]
    ctx.case("pointing", dl, f)
    za = np.arcsin(min(1, np.hypot(l, m)))
    if za > np.radians(35):
        return
    p = np.sum(np.abs(b.data_array[:, :, fi]) ** 2, axis=(0, 1))
    i, j = np.unravel_index(np.argmax(p), p.shape)
    l1, m1 = np.sin(b.axis2_array[i]) * np.cos(b.axis1_array[j]), np.sin(b.axis2_array[i]) * np.sin(b.axis1_array[j])
    ctx.ev("pointing")
    # within half a beam width; the element pattern pulls the maximum towards the zenith
    w = 0.6 * c / f / 4.4
    ctx.check(np.hypot(l - l1, m - m1) < w, f"delays {dl} point to l, m = {l:.3f}, {m:.3f}; the response at {f / 1e6} MHz is largest at {l1:.3f}, {m1:.3f} (beam half width {w:.3f})")


def dipole(ctx):
    """close to the zenith a tile is a pair of horizontal dipoles, x east-west and y north-south"""
    b = UVBeam()
    b.read_mwa_beam(MWAFILE, pixels_per_deg=0.5)
    fi = int(ctx.rng.integers(3))
    ctx.case("dipole", fi, ctx.rng.integers(10**6))
    th, ph = b.axis2_array[1:3], b.axis1_array
    ref = b.data_array[:, 0, fi, 1, 0]
    ref = ref[np.argmax(np.abs(ref))]
    for k, (vx, vy) in enumerate(((1, 0), (0, 1))):
        et = np.cos(th)[:, None] * (vx * np.cos(ph) + vy * np.sin(ph))[None]
        ep = np.ones(len(th))[:, None] * (-vx * np.sin(ph) + vy * np.cos(ph))[None]
        g = b.data_array[:, k, fi, 1:3] / ref
        bv = b.basis_vector_array[..., 1:3, :]
        ok = np.abs(g[0] * bv[0, 0] + g[1] * bv[1, 0] - ep).max() < 0.1 and np.abs(g[0] * bv[0, 1] + g[1] * bv[1, 1] - et).max() < 0.1
        ctx.ev("mwa_dipole")
        if not ok:
            ctx.check(np.abs(g[0] - et).max() < 0.1 and np.abs(g[1] + ep).max() < 0.1, f"feed {k}: response near the zenith is neither that of the dipole in the basis of the object nor that of the known finding")
            ctx.finding("mwa-beam-components-exchanged", "the response of the x feed towards the east is put along azimuth, not along zenith angle")


SCENARIOS = [Scenario("cst", cst, 600, 12000), Scenario("refuse", refuse, 150, 3000), Scenario("mwa", mwa, 120, 3000), Scenario("pointing", pointing, 16, 200), Scenario("dipole", dipole, 4, 12)]
