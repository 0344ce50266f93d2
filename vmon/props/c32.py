"""C32 Beam FITS round trips."""
import numpy as np

from pyuvdata import UVBeam
from vmon import canon, gen
from vmon.core import Scenario, Skip
from vmon.props import beamcommon as bc
from vmon.props import common

RULE = (
    "random beams (efield/power, real and complex power, vector power, regular/HEALPix ring/nested and partial, aligned and rotated basis vectors, "
    "optional receiver arrays, odd histories and keywords) are written and read back whole or by frequency/azimuth/zenith range or file "
    "list; every attribute is compared with our own copy; non-trivial = distinct beam"
)
REQUIRED = ["efield", "power", "real_power", "complex_power", "vector_power", "healpix", "az_za", "orthoslant", "rotated", "optional", "descending", "freq_range", "az_range", "za_range", "uneven_refused",
            "file_list", "second_generation", "float32", "uneven_pols_refused", "phased_refused", "btype", "no_coordsys", "freq_None", "freq_MHz", "freq_kHz", "freq_GHz", "freq_pixel", "axis_rad", "axis_None", "fewer_axes", "no_bandpass"]
IGN = {"history", "filename"}


def _mk(ctx, **k):
    rng = ctx.rng
    k.setdefault("phased", False)
    b = gen.make_beam(rng, **k)
    if b.beam_type == "efield" and rng.integers(6) == 0:
        b = common.quiet(b.efield_to_power, keep_basis_vector=True, inplace=False, calc_cross_pols=bool(rng.integers(2)))
    elif b.beam_type == "efield" and rng.integers(6) == 0:
        b = common.quiet(b.efield_to_power, inplace=False, calc_cross_pols=bool(rng.integers(2)))
    if b.pixel_coordinate_system == "az_za" and rng.integers(8) == 0:
        b.pixel_coordinate_system = "orthoslant_zenith"
        b._axis1_array.acceptable_range = b._axis2_array.acceptable_range = None
        ctx.ev("orthoslant")
    if rng.integers(8) == 0:
        b.data_array = b.data_array.astype(np.complex64 if np.iscomplexobj(b.data_array) else np.float32)
        ctx.ev("float32")
    ctx.ev(b.beam_type)
    if b.beam_type == "power":
        ctx.ev("complex_power" if np.iscomplexobj(b.data_array) else "real_power")
        if b.Naxes_vec > 1:
            ctx.ev("vector_power")
    ctx.ev(b.pixel_coordinate_system)
    if b.basis_vector_array is not None and not np.isin(b.basis_vector_array, [0, 1]).all():
        ctx.ev("rotated")
    if b.s_parameters is not None:
        ctx.ev("optional")
    if b.Nfreqs > 1 and b.freq_array[1] < b.freq_array[0]:
        ctx.ev("descending")
    ctx.case(bc.describe(b))
    return b


TOL = {"freq_array": 1e-3, "axis1_array": 1e-9, "axis2_array": 1e-9}


def _cmp(ctx, want, got, what):
    ign = IGN | ({"Ncomponents_vec"} if want["basis_vector_array"] is None else set())  # means nothing without basis vectors
    d = canon.diff(want, got, ignore=ign, tols=TOL)
    ctx.check(not d, lambda: f"{what}: {d[:4]}")


def _even_pols(b):
    if b.beam_type != "power" or b.Npols < 2:
        return True
    return len(np.unique(np.diff(b.polarization_array))) == 1


def roundtrip(ctx):
    rng = ctx.rng
    b = _mk(ctx)
    p = ctx.path("b.fits")
    if not _even_pols(b):
        ctx.raises(ValueError, lambda: b.write_beamfits(p), "writing unevenly spaced polarizations")
        ctx.ev("uneven_pols_refused")
        return
    s = canon.snap(b)
    b.write_beamfits(p)
    ctx.check(not canon.diff(s, b, exact=True), "writing changed the object")
    r = UVBeam()
    if rng.integers(2):
        r.read_beamfits(p)
    else:
        r.read(p)
    _cmp(ctx, s, r, "read back")
    common.hist_kept(ctx, "".join(s["history"].split()), "".join(r.history.split()), "read back")
    ctx.check(list(r.filename) == ["b.fits"], f"filename {r.filename}")
    r.check()
    q = ctx.path("c.fits")
    r.write_beamfits(q)
    r2 = UVBeam.from_file(q)
    d = canon.diff(r, r2, ignore=IGN, tols={"axis1_array": 1e-12, "axis2_array": 1e-12})
    ctx.check(not d, lambda: f"second generation: {d[:3]}")
    ctx.ev("second_generation")


def _rng_of(rng, arr, scale=1.0):
    """a range around a random contiguous run of samples (bounds between the samples), and the kept indices"""
    n = len(arr)
    i = int(rng.integers(n))
    j = int(rng.integers(i, n))
    s = np.sort(arr)
    step = np.min(np.diff(s)) if n > 1 else abs(s[0]) * 0.01 + 1e-3
    lo, hi = s[i] - 0.4 * step, s[j] + 0.4 * step
    keep = [k for k in range(n) if lo <= arr[k] <= hi]
    return (lo * scale, hi * scale), keep


def partial(ctx):
    rng = ctx.rng
    b = _mk(ctx, pols=[[-5], [-5, -6], [-5, -6, -7, -8], [1, 2, 3, 4], [-8, -7, -6]][int(rng.integers(5))])
    if not _even_pols(b):
        raise Skip("not evenly spaced")
    p = ctx.path("b.fits")
    b.write_beamfits(p)
    s = canon.snap(b)
    kw, tk = {}, {}
    if rng.integers(2) or b.pixel_coordinate_system == "healpix":
        kw["freq_range"], tk["fi"] = _rng_of(rng, b.freq_array)
        ctx.ev("freq_range")
    if b.pixel_coordinate_system != "healpix":
        if rng.integers(2):
            kw["az_range"], tk["a1"] = _rng_of(rng, b.axis1_array, 180 / np.pi)
            ctx.ev("az_range")
        if rng.integers(2):
            kw["za_range"], tk["a2"] = _rng_of(rng, b.axis2_array, 180 / np.pi)
            ctx.ev("za_range")
    if rng.integers(2):
        kw = {k: list(v) for k, v in kw.items()}
    r = UVBeam.from_file(p, **kw)
    _cmp(ctx, bc.take(s, **tk), r, f"read with {kw}")
    r.check()


def filelist(ctx):
    rng = ctx.rng
    b = _mk(ctx, nfreq=int(rng.integers(2, 6)), asc=True, pols=[-5, -6], nfeeds=2)
    if b.beam_type == "efield":
        b.feed_array = np.sort(b.feed_array)
    if not _even_pols(b):
        raise Skip("not evenly spaced")
    k = int(rng.integers(1, b.Nfreqs))
    parts = [b.select(freq_chans=list(range(k)), inplace=False), b.select(freq_chans=list(range(k, b.Nfreqs)), inplace=False)]
    fs = []
    for i in rng.permutation(2):
        fs.append(ctx.path(f"p{i}.fits"))
        parts[i].write_beamfits(fs[-1])
    r = UVBeam()
    r.read(fs if rng.integers(2) else np.array(fs))
    px = None
    s = canon.snap(b)
    if b.pixel_coordinate_system == "healpix" and rng.integers(2) < 0:
        px = 0
    _cmp(ctx, s, r, "read from two files")
    ctx.check(sorted(r.filename) == ["p0.fits", "p1.fits"], f"filenames {r.filename}")
    ctx.ev("file_list")


def refused(ctx):
    rng = ctx.rng
    k = gen.pick(rng, ["freq", "axis", "phased"])
    p = ctx.path("b.fits")
    if k == "freq":
        b = _mk(ctx, even_freq=False, nfreq=4, pols=[-5])
        if len(np.unique(np.diff(b.freq_array))) == 1:
            raise Skip("even")
        ctx.ev("uneven_refused")
    elif k == "axis":
        b = _mk(ctx, grid="az_za", even_grid=False, pols=[-5])
        ctx.ev("uneven_refused")
    else:
        b = gen.make_beam(rng, beam_type="efield", phased=True)
        ctx.ev("phased_refused")
    ctx.raises(ValueError, lambda: b.write_beamfits(p), f"writing a beam that the format cannot hold ({k})")
    import os

    ctx.check(not os.path.exists(p), "a refused write left a file")


def foreign(ctx):
    """headers that say the same in another way are read as the same beam"""
    from astropy.io import fits

    rng = ctx.rng
    b = _mk(ctx, pols=[[-5], [-5, -6], [-5, -6, -7, -8], [1, 2, 3, 4], [-8, -7, -6]][int(rng.integers(5))])
    if not _even_pols(b):
        raise Skip("not evenly spaced")
    p = ctx.path("b.fits")
    b.write_beamfits(p)
    s = canon.snap(b)
    hp = b.pixel_coordinate_system == "healpix"
    fax = 2 if hp else 3
    done = []
    with fits.open(p, mode="update") as h:
        H = h[0].header
        bv = [x for x in h if x.name == "BASISVEC"]
        if b.beam_type == "power" and rng.integers(2):
            k = gen.pick(rng, ["Intensity", "POWER", None, "none"])
            if k is None or k == "none":
                del H["BTYPE"]
                H["BUNIT"] = "Jy/beam" if k is None else "JY/BEAM  "
            else:
                H["BTYPE"] = k
            done.append(f"btype {k}")
            ctx.ev("btype")
        elif b.beam_type == "efield" and rng.integers(3) == 0:
            H["BTYPE"] = "EField"
        if rng.integers(2):
            del H["COORDSYS"]
            done.append("no coordsys")
            ctx.ev("no_coordsys")
        u = gen.pick(rng, ["Hz", None, "kHz", "MHz", "GHz"])
        if u is None:
            del H[f"CUNIT{fax}"]
        else:
            z = {"Hz": 1, "kHz": 1e3, "MHz": 1e6, "GHz": 1e9}[u]
            H[f"CUNIT{fax}"] = u
            H[f"CRVAL{fax}"] /= z
            H[f"CDELT{fax}"] /= z
        done.append(f"freq {u}")
        ctx.ev(f"freq_{u}")
        if rng.integers(3) == 0:
            o = int(rng.integers(-3, 4))
            H[f"CRPIX{fax}"] += o
            H[f"CRVAL{fax}"] += o * H[f"CDELT{fax}"]
            done.append(f"freq pixel {o}")
            ctx.ev("freq_pixel")
        if not hp:
            for a in (1, 2):
                k = gen.pick(rng, ["deg", None, "rad"])
                for hd in [H] + [x.header for x in bv]:
                    if k is None:
                        del hd[f"CUNIT{a}"]
                    elif k == "rad":
                        hd[f"CUNIT{a}"] = "rad"
                        hd[f"CRVAL{a}"] = np.deg2rad(hd[f"CRVAL{a}"])
                        hd[f"CDELT{a}"] = np.deg2rad(hd[f"CDELT{a}"])
                done.append(f"axis {a} {k}")
                ctx.ev(f"axis_{k}")
                if rng.integers(3) == 0:
                    o = int(rng.integers(-3, 4))
                    for hd in [H] + [x.header for x in bv]:
                        hd[f"CRPIX{a}"] += o
                        hd[f"CRVAL{a}"] += o * hd[f"CDELT{a}"]
                    done.append(f"axis {a} pixel {o}")
        if rng.integers(2):
            for k in [k for k in H if k.startswith("CTYPE")]:
                H[k] = H[k].lower()
        if b.beam_type == "power" and b.Naxes_vec == 1 and not np.iscomplexobj(b.data_array) and b.basis_vector_array is None and rng.integers(2):
            n = H["NAXIS"]
            top = 4 if hp else 5  # the axis of the windows
            drop = int(rng.integers(1, n - top + 2))
            h[0].data = h[0].data.reshape(h[0].data.shape[drop:]).copy()
            for a in range(n - drop + 1, n + 1):
                for k in ("CTYPE", "CRVAL", "CRPIX", "CDELT", "CUNIT"):
                    if f"{k}{a}" in H:
                        del H[f"{k}{a}"]
            done.append(f"without the last {drop} axes")
            ctx.ev("fewer_axes")
        if rng.integers(3) == 0:
            del h["BANDPARM"]
            done.append("no bandpass")
            for k in ("receiver_temperature_array", "loss_array", "mismatch_array", "s_parameters", "reference_impedance"):
                s[k] = None
            s["bandpass_array"] = np.ones(b.Nfreqs)
            ctx.ev("no_bandpass")
    ctx.case(tuple(done))
    kw, tk = {}, {}
    if rng.integers(2):
        kw["freq_range"], tk["fi"] = _rng_of(rng, b.freq_array)
        if not hp:
            kw["az_range"], tk["a1"] = _rng_of(rng, b.axis1_array, 180 / np.pi)
            kw["za_range"], tk["a2"] = _rng_of(rng, b.axis2_array, 180 / np.pi)
    r = UVBeam.from_file(p, **kw)
    _cmp(ctx, bc.take(s, **tk), r, f"read with {kw} from a file with {done}")
    r.check()


SCENARIOS = [Scenario("roundtrip", roundtrip, 500, 5000), Scenario("partial", partial, 300, 3000), Scenario("filelist", filelist, 80, 600), Scenario("refused", refused, 60, 300), Scenario("foreign", foreign, 250, 2500)]
