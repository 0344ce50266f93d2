"""C20: existing files are never overwritten unasked.

The monitor fingerprints the whole directory tree (names, types, bytes) around
every write: a write that is refused leaves it as it was, a permitted overwrite
leaves a file that reads back exactly as the same object written to a fresh
path, and writing touches no path other than its target.
"""
import hashlib
import os
import pathlib

import numpy as np

from pyuvdata import UVBeam, UVCal, UVData, UVFlag
from vmon import canon, gen
from vmon.core import Scenario, Skip
from vmon.props import common
from vmon.props.common import quiet

W = ["uvh5", "uvh5_init", "miriad", "ms", "calh5", "calfits", "ms_cal", "beamfits", "uvflag"]
CHECKED = ["uvh5", "uvfits", "miriad", "ms", "calh5", "calfits", "beamfits"]
RULE = "random object of a class, one writer, a pre-existing path (older product of the same writer, of another writer, a plain file, a directory with files), clobber or not, valid or corrupted object"
REQUIRED = [f"{w}:{k}" for w in W for k in ("refused", "overwritten")] + [f"{w}:invalid" for w in CHECKED] + [f"{w}:invalid_over" for w in CHECKED] + [
    "over:file", "over:dir", "over:other", "over:same", "history:kept", "fresh", "uvh5_part:mismatch"]


def tree(root):
    out = {}
    for d, ds, fs in os.walk(root):
        for n in ds:
            p = os.path.join(d, n)
            out[os.path.relpath(p, root)] = "dir"
        for n in fs:
            p = os.path.join(d, n)
            with open(p, "rb") as f:
                out[os.path.relpath(p, root)] = hashlib.sha1(f.read()).hexdigest()
    return out


def treediff(a, b):
    return [f"{'new' if k not in a else 'gone' if k not in b else 'changed'}: {k}" for k in sorted(set(a) | set(b)) if a.get(k) != b.get(k)]


def make(rng, w):
    if w in ("uvh5", "uvh5_init"):
        x = gen.make_uvdata(rng)
        if rng.integers(3) == 0:
            x.eq_coeffs = rng.normal(size=(x.telescope.Nants, x.Nfreqs))
            x.eq_coeffs_convention = "divide"
    elif w == "uvfits":
        x = gen.make_uvdata(rng, even_freq=True, chans=int(rng.integers(2, 6)), kinds=["sidereal"], nphase=1, pols=gen.pick(rng, [[-5], [-5, -6], [-7, -8]]))
    elif w == "miriad":
        x = gen.make_uvdata(rng, even_freq=True, kinds=["sidereal"], antnums=np.arange(int(rng.integers(3, 7))), diameters=False, int_time=10.0)
    elif w == "ms":
        x = gen.make_uvdata(rng, kinds=["sidereal"], pols=gen.make_pols(rng, kind="lin"), chans=int(rng.integers(2, 5)))
    elif w == "calh5":
        x = gen.make_uvcal(rng)
    elif w == "calfits":
        kind = gen.pick(rng, ["gain", "delay"])
        kw = dict(wide=False, even_freq=True) if kind == "gain" else dict(wide=True)
        x = gen.make_uvcal(rng, cal_type=kind, nspw=1, spw_ids=[0] if kind == "gain" else None, time_range=False, ntimes=int(rng.integers(1, 4)), uniform_time=True, catalog=False, scan=False, jones=gen.pick(rng, [[-5], [-5, -6], [-1, -2]]), **kw)
        x.spw_array = np.array([0])
        if kind == "gain":
            x.flex_spw_id_array = np.zeros(x.Nfreqs, int)
        x.integration_time = np.full(x.Ntimes, 10.0)
        if x.ref_antenna_array is not None:
            x.ref_antenna_array = None
            x.ref_antenna_name = str(x.telescope.antenna_names[0])
    elif w == "ms_cal":
        tel = gen.make_telescope(rng, nants=int(rng.integers(2, 6)))
        tel.antenna_numbers = np.arange(tel.Nants)
        kind = gen.pick(rng, ["gain", "wide", "delay"])
        x = gen.make_uvcal(rng, tel=tel, cal_type="delay" if kind == "delay" else "gain", wide=kind != "gain", jones=gen.pick(rng, [[-5, -6], [-5]]), gain_convention="divide", ntimes=int(rng.integers(1, 4)),
                           time_range=False, style="sky", nspw=1, catalog=False, scan=False)
        if x.ref_antenna_array is not None:
            x.ref_antenna_array = None
        x.ref_antenna_name = str(tel.antenna_names[0])
        x.extra_keywords = {}
    elif w == "beamfits":
        x = gen.make_beam(rng, phased=False)
        if x.beam_type == "power" and x.Npols > 2:
            quiet(x.select, polarizations=[int(x.polarization_array[0])])
    else:
        x = gen.make_uvflag(rng)
    return x


def write(w, x, p, **k):
    f = {"uvh5": "write_uvh5", "uvh5_init": "initialize_uvh5_file", "uvfits": "write_uvfits", "miriad": "write_miriad", "ms": "write_ms", "calh5": "write_calh5", "calfits": "write_calfits",
         "ms_cal": "write_ms_cal", "beamfits": "write_beamfits", "uvflag": "write"}[w]
    import contextlib
    import io

    with contextlib.redirect_stdout(io.StringIO()):
        return quiet(getattr(x, f), p, **k)


def read(w, p):
    if w in ("uvh5", "uvfits", "miriad", "ms"):
        return quiet(UVData.from_file, p, file_type=w)
    if w == "uvh5_init":
        return quiet(UVData.from_file, p, file_type="uvh5", read_data=False)
    if w in ("calh5", "calfits"):
        return quiet(UVCal.from_file, p, file_type=w)
    if w == "ms_cal":
        return quiet(UVCal.from_file, p, file_type="ms")
    if w == "beamfits":
        return quiet(UVBeam.from_file, p, file_type="beamfits")
    return quiet(UVFlag, p)


def occupy(ctx, root, p, w, w2=None):
    """put something at path p that the user would not like to lose"""
    rng = ctx.rng
    kind = gen.pick(rng, ["same", "same", "same", "other", "file", "dir"])
    if kind == "same":
        write("uvh5" if w == "uvh5_init" else w, make(rng, w), p)
    elif kind == "other":
        o = gen.pick(rng, [v for v in ("uvh5", "calh5", "beamfits", "uvflag", "uvfits", "miriad", "ms") if v != w])
        write(o, make(rng, o), p)
    elif kind == "file":
        with open(p, "wb") as f:
            f.write(bytes(rng.integers(0, 256, int(rng.integers(0, 4000)), dtype=np.uint8)))
    else:
        os.makedirs(os.path.join(p, "sub"))
        for n in ("keep.txt", "sub/notes", "table.dat"):
            with open(os.path.join(p, n), "w") as f:
                f.write(f"precious {rng.integers(1e9)}")
    # neighbours
    with open(os.path.join(root, "neighbour"), "w") as f:
        f.write("n")
    return kind


def root_of(ctx, name="w"):
    r = os.path.join(str(ctx.tmp), name)
    os.makedirs(r)
    return r


def refuse(ctx):
    rng = ctx.rng
    w = gen.pick(rng, W)
    root = root_of(ctx)
    p = os.path.join(root, "target." + w)
    kind = occupy(ctx, root, p, w)
    x = make(rng, w)
    before, t0 = canon.snap(x), tree(root)
    arg = pathlib.Path(p) if rng.integers(4) == 0 and w in ("uvh5", "uvh5_init", "calh5", "calfits", "beamfits") else p
    k = gen.pick(rng, [{}, {"clobber": False}])
    if w not in ("ms_cal", "uvflag", "uvh5_init") and rng.integers(4) == 0:
        k["run_check"] = False
    ctx.case(w, kind, str(k), type(arg).__name__, t0.get("target." + w))
    err = None
    try:
        write(w, x, arg, **k)
    except Exception as e:  # noqa: BLE001
        err = e
    ctx.check(err is not None, f"{w}: wrote onto an existing {kind} without being told to", f"{w}-overwrites")
    d = treediff(t0, tree(root))
    ctx.check(not d, f"{w}: refused ({type(err).__name__}: {err}) but existing files changed: {d[:4]}", f"{w}-refused-changes")
    ctx.check(isinstance(err, (OSError, ValueError)), f"{w}: existing {kind} gives {type(err).__name__}: {err}", f"{w}-error-type")
    d = [v for v in canon.diff(before, x, exact=True, ignore={"blt_order", "blts_are_rectangular", "time_axis_faster_than_bls"})]
    if w != "miriad":
        ctx.check(not d, f"{w}: refused write changed the object: {d[:3]}", f"{w}-refused-object")
    ctx.ev(f"{w}:refused")
    ctx.ev("over:" + kind)


def clobber(ctx):
    rng = ctx.rng
    w = gen.pick(rng, W)
    root = root_of(ctx)
    ref = root_of(ctx, "ref")
    p = os.path.join(root, "target." + w)
    kind = occupy(ctx, root, p, w)
    t0 = tree(root)
    x = make(rng, w)
    ctx.case(w, kind, t0.get("target." + w), str(canon.snap(x).get("history"))[-30:])
    hist = x.history
    if rng.integers(2):
        y = x.copy()
        write(w, y, os.path.join(ref, "target." + w))
    else:
        y = x.copy()
        write(w, y, os.path.join(ref, "target." + w), clobber=True)
        ctx.ev("fresh")
    x0 = canon.snap(x)
    try:
        write(w, x, p, clobber=True)
    except Exception as e:  # noqa: BLE001
        # the target cannot be replaced by this writer: then it is still what it was
        ctx.check(kind in ("dir", "other", "file"), f"{w}: clobber=True over the same kind of file fails: {type(e).__name__}: {e}", f"{w}-clobber-fails")
        d = treediff(t0, tree(root))
        ctx.check(not d, f"{w}: could not overwrite {kind} ({type(e).__name__}) but changed it: {d[:4]}", f"{w}-clobber-damage")
        raise Skip("cannot replace")
    ctx.check(x.history.startswith(hist.rstrip("\n")), f"{w}: writing lost the history of the object", f"{w}-history-object")
    t1 = tree(root)
    d = [v for v in treediff(t0, t1) if not v.split(": ", 1)[1].startswith("target." + w)]
    ctx.check(not d, f"{w}: writing changed other paths: {d[:4]}", f"{w}-neighbours")
    new = tree(ref)
    names = {k for k in t1 if k.startswith("target." + w)}
    ctx.check(names == set(new), f"{w}: after overwriting a {kind}, the dataset has {sorted(names ^ set(new))[:6]} more or less than a fresh one", f"{w}-leftover-files")
    a, b = read(w, p), read(w, os.path.join(ref, "target." + w))
    d = canon.diff(canon.snap(b), canon.snap(a), exact=True, ignore={"filename"})
    ctx.check(not d, f"{w}: overwritten {kind} reads differently from a fresh file: {d[:4]}", f"{w}-leftover")
    h = hist.replace("\n", "").replace(" ", "")
    ctx.check(h in a.history.replace("\n", "").replace(" ", ""), f"{w}: history {hist!r} lost in file: {a.history!r}", f"{w}-history-file")
    ctx.ev("history:kept")
    ctx.ev(f"{w}:overwritten")
    ctx.ev("over:" + kind)


def corrupt(rng, w, x):
    if isinstance(x, UVData):
        how = gen.pick(rng, ["short_data", "units", "count", "catalog", "flagtype", "missing", "nsample", "auto", "uvw"])
        if how == "short_data":
            x.data_array = x.data_array[:, :, :-1] if x.Npols > 1 else np.concatenate([x.data_array] * 2, axis=2)
        elif how == "units":
            x.vis_units = "bananas"
        elif how == "count":
            # (write_miriad reorients baselines, which recounts them)
            x.Ntimes = x.Ntimes + 1
        elif how == "catalog":
            x.phase_center_id_array = x.phase_center_id_array + 37
        elif how == "flagtype":
            x.flag_array = x.flag_array.astype(float)
        elif how == "missing":
            x.integration_time = None
        elif how == "nsample":
            x.nsample_array = x.nsample_array[:-1] if x.Nblts > 1 else np.concatenate([x.nsample_array] * 2)
        elif how == "auto":
            auto = x.ant_1_array == x.ant_2_array
            if not auto.any() or not any(p in (-1, -2, -5, -6) for p in x.polarization_array):
                raise Skip("no autos")
            pi = [i for i, p in enumerate(x.polarization_array) if p in (-1, -2, -5, -6)]
            x.data_array[np.nonzero(auto)[0][0], :, pi] += 5j * (1 + np.abs(x.data_array).max())
        else:
            x.uvw_array = x.uvw_array[:, :2]
    elif isinstance(x, UVCal):
        how = gen.pick(rng, ["shape", "style", "count", "type", "missing"])
        if how == "shape":
            x.flag_array = np.concatenate([x.flag_array] * 2)
        elif how == "style":
            x.cal_style = "bananas"
        elif how == "count":
            x.Nants_data += 1
        elif how == "type":
            x.flag_array = x.flag_array.astype(int)
        else:
            x.gain_convention = None
    else:
        how = gen.pick(rng, ["shape", "type", "count", "missing"])
        if how == "shape":
            x.data_array = np.concatenate([x.data_array] * 2, axis=-1)
        elif how == "type":
            x.beam_type = "bananas"
        elif how == "count":
            x.Nfreqs += 1
        else:
            x.bandpass_array = None
    return how


def invalid(ctx):
    rng = ctx.rng
    w = gen.pick(rng, CHECKED)
    root = root_of(ctx)
    p = os.path.join(root, "target." + w)
    over = bool(rng.integers(2))
    kind = occupy(ctx, root, p, w) if over else "nothing"
    x = make(rng, w)
    how = corrupt(rng, w, x)
    t0 = tree(root)
    k = {"clobber": True} if over and w != "uvfits" else {}
    ctx.case(w, how, kind, t0.get("target." + w))
    err = None
    try:
        write(w, x, p, **k)
    except Exception as e:  # noqa: BLE001
        err = e
    ctx.check(err is not None, f"{w}: an object that is invalid ({how}) was written", f"{w}-invalid-{how}")
    d = treediff(t0, tree(root))
    ctx.check(not d, f"{w}: invalid object ({how}) refused ({type(err).__name__}: {str(err)[:80]}) but files changed: {d[:4]}", f"{w}-invalid-changes")
    ctx.ev(f"{w}:invalid_over" if over else f"{w}:invalid")


def part(ctx):
    """write_uvh5_part into a file whose header does not match"""
    rng = ctx.rng
    x = gen.make_uvdata(rng)
    root = root_of(ctx)
    p = os.path.join(root, "t.uvh5")
    write("uvh5", x, p)
    t0 = tree(root)
    y = x.copy()
    how = gen.pick(rng, ["freq", "time", "pol", "ant", "shape", "missing"])
    target = p
    if how == "freq":
        y.freq_array = y.freq_array + 1e6
    elif how == "time":
        y.time_array = y.time_array + 0.5
    elif how == "pol":
        y.polarization_array = y.polarization_array[::-1].copy() - 1
        y._polarization_array.acceptable_vals = None
    elif how == "ant":
        y.telescope.antenna_positions = y.telescope.antenna_positions + 5
    elif how == "missing":
        target = os.path.join(root, "no_such.uvh5")
    d, f, n = x.data_array * 2, ~x.flag_array, x.nsample_array * 2
    if how == "shape":
        if x.Nblts < 2:
            raise Skip("one record")
        d = d[:-1]
    err = None
    try:
        quiet(y.write_uvh5_part, target, data_array=d, flag_array=f, nsample_array=n)
    except Exception as e:  # noqa: BLE001
        err = e
    ctx.case(how, common.describe_uv(x)[:100])
    ctx.check(err is not None, f"write_uvh5_part accepted a file with another header ({how})", f"part-{how}")
    t = tree(root)
    if how == "shape":
        # the file may be rewritten, its content may not
        z = read("uvh5", p)
        dd = canon.diff(canon.snap(x), canon.snap(z), ignore={"filename", "scan_number_array"})
        ctx.check("no_such.uvh5" not in t and not [v for v in dd if v.startswith(("data_array", "flag_array", "nsample_array"))], f"refused part changed the file: {dd[:3]}", f"part-{how}-changes")
    else:
        dd = treediff(t0, t)
        ctx.check(not dd, f"refused write_uvh5_part ({how}) changed files: {dd}", f"part-{how}-changes")
    ctx.ev("uvh5_part:mismatch")


SCENARIOS = [Scenario("refuse", refuse, 260, 2500), Scenario("clobber", clobber, 260, 2500), Scenario("invalid", invalid, 300, 3000), Scenario("part", part, 60, 500)]
