"""C06 Writing a UVH5 file in parts gives the same file as writing it at once."""
import hashlib
import os

import h5py
import numpy as np

from pyuvdata import UVData
from vmon import canon, gen
from vmon.core import Scenario, Skip
from vmon.props import common
from vmon.props.c05 import random_select

RULE = (
    "a file is initialised from a random object and filled by a random sequence of partial writes (every select "
    "keyword, regular and scattered indices on up to three axes, overlapping writes, other storage types, refused "
    "writes in between); after every write the datasets are compared with a shadow copy updated by our own index "
    "filter; non-trivial = distinct (object, sequence)"
)
REQUIRED = ["part_written", "refused_shape", "refused_header", "refused_missing", "refused_selection", "int_dtype",
            "scatter_0", "scatter_1", "scatter_2", "scatter_3", "complete", "history_appended", "sel_blt_inds", "sel_freq_chans",
            "sel_polarizations", "sel_times", "sel_bls", "sel_antenna_nums", "sel_frequencies", "sel_ant_str"]

INT = np.dtype([("r", "<i4"), ("i", "<i4")])


def _scattered(m):
    i = np.nonzero(m)[0]
    return len(set(np.diff(i).tolist())) > 1


def _digest(fn):
    with open(fn, "rb") as f:
        return hashlib.sha256(f.read()).hexdigest()


def _compare(ctx, fn, sh, what):
    with h5py.File(fn, "r") as f:
        d = f["Data"]
        vis = d["visdata"][...]
        if vis.dtype.names:
            vis = vis["r"] + 1j * vis["i"]
        for name, got, want in (("visdata", vis, sh["data"]), ("flags", d["flags"][...], sh["flags"]),
                                ("nsamples", d["nsamples"][...], sh["ns"])):
            bad = got != want
            ctx.check(not bad.any(), lambda: f"{what}: {name} differs from what was written at {int(bad.sum())} of {bad.size} "
                                             f"places, first {tuple(int(v) for v in np.argwhere(bad)[0])}")


def s_parts(ctx):
    rng = ctx.rng
    uv = gen.make_uvdata(rng, nbl=int(rng.integers(2, 7)), chans=int(rng.integers(2, 7)), pols=gen.make_pols(rng, full=bool(rng.integers(4))))
    if uv.Nblts > 30:
        uv.select(blt_inds=np.arange(30))
    dt = gen.pick(rng, [None, "c8", "c16", INT])
    if dt is INT:
        uv.data_array = np.round(uv.data_array.real) + 1j * np.round(uv.data_array.imag)
        ctx.ev("int_dtype")
    store = np.complex64 if dt == "c8" else np.complex128
    fn = ctx.path("p.uvh5")
    kw = {}
    if rng.integers(2):
        kw["chunks"] = gen.pick(rng, [True, None, (1, 1, 1)])
    if rng.integers(2):
        kw["data_compression"] = gen.pick(rng, ["lzf", None])
        kw["flags_compression"] = gen.pick(rng, ["lzf", None])
    src = uv.copy(metadata_only=True) if rng.integers(2) else uv
    keep = canon.snap(src)
    src.initialize_uvh5_file(fn, data_write_dtype=dt, **kw)
    shape = (uv.Nblts, uv.Nfreqs, uv.Npols)
    sh = {"data": np.zeros(shape, store), "flags": np.zeros(shape, bool), "ns": np.zeros(shape, np.float32)}
    _compare(ctx, fn, sh, "initialised file")
    hist0 = _hist(fn)
    log = []
    covered = np.zeros(shape, bool)
    for step in range(int(rng.integers(2, 8))):
        act = gen.pick(rng, ["write"] * 6 + ["shape", "header", "missing", "selection"])
        kws, rows, chans, pols = random_select(ctx, uv, nkeys=int(rng.integers(0, 4)))
        if uv.Npols == 4 and uv.Nfreqs > 2 and uv.Nblts > 2 and rng.integers(5) == 0:
            rows, chans, pols = np.zeros(uv.Nblts, bool), np.zeros(uv.Nfreqs, bool), np.zeros(4, bool)
            for m in (rows, chans, pols):
                k = int(rng.integers(2, len(m) + 1))
                m[rng.choice(len(m), k, replace=False)] = True
                if len(m) > 3 and rng.integers(2):
                    m[:] = False
                    m[[0, 1, len(m) - 1]] = True
            kws = dict(blt_inds=np.nonzero(rows)[0], freq_chans=np.nonzero(chans)[0],
                       polarizations=uv.polarization_array[pols])
        ix = np.ix_(rows, chans, pols)
        vals = [a[ix].copy() for a in (uv.data_array, uv.flag_array, uv.nsample_array)]
        if rng.integers(3) == 0:
            # other values than the object's own
            n = vals[0].shape
            vals = [np.round(rng.standard_normal(n) * 100) + 1j * np.round(rng.standard_normal(n) * 100),
                    rng.random(n) < 0.5, (rng.integers(0, 9, n) / 4.0).astype(np.float32)]
        args = dict(data_array=vals[0].astype(store), flag_array=vals[1], nsample_array=vals[2], **kws)
        if act == "write":
            if rng.integers(4) == 0:
                args["check_header"] = False
            if rng.integers(4) == 0 and src is not uv:
                # the header on disk gets the text, so later header checks need it in memory
                args["add_to_history"] = " part note."
            given = [args[k].copy() for k in ("data_array", "flag_array", "nsample_array")]
            src.write_uvh5_part(fn, **args)
            for k, g in zip(("data_array", "flag_array", "nsample_array"), given):
                ctx.check(np.array_equal(args[k], g), f"write_uvh5_part changed the {k} it was given")
            if "add_to_history" in args:
                ctx.check("part note." in _hist(fn) and hist0 in _hist(fn), "history text was not appended")
                src.history = _hist(fn)
                keep["history"] = src.history
                ctx.ev("history_appended")
            sh["data"][ix] = args["data_array"]
            sh["flags"][ix] = args["flag_array"]
            sh["ns"][ix] = args["nsample_array"]
            covered[ix] = True
            ctx.ev("part_written")
            ctx.ev(f"scatter_{sum([_scattered(rows), _scattered(chans), _scattered(pols)])}")
            log.append(("w", sorted(kws), int(rows.sum()), int(chans.sum()), int(pols.sum())))
        else:
            dig = _digest(fn)
            obj, f2 = src, fn
            exc = AssertionError
            if act == "shape":
                w = int(rng.integers(3))
                a = gen.pick(rng, ["data_array", "flag_array", "nsample_array", "all"])
                big = np.concatenate([vals[0]] * 2, axis=w)
                if a == "all":
                    args.update(data_array=big, flag_array=np.concatenate([vals[1]] * 2, axis=w),
                                nsample_array=np.concatenate([vals[2]] * 2, axis=w))
                else:
                    args[a] = np.concatenate([args[a]] * 2, axis=w)
                exc = (AssertionError, ValueError)
            elif act == "header":
                obj = uv.copy(metadata_only=bool(rng.integers(2)))
                obj.history = src.history
                what = gen.pick(rng, ["freq", "time", "pol", "name", "ants"])
                if what == "freq":
                    obj.freq_array = obj.freq_array + 5.0
                elif what == "time":
                    obj.time_array = obj.time_array + 1e-6
                elif what == "pol":
                    obj.vis_units = "Jy" if uv.vis_units != "Jy" else "K str"
                elif what == "name":
                    obj.telescope.name = "someoneelse"
                else:
                    obj.integration_time = obj.integration_time * 2
                if "times" in kws or "time_range" in kws or "frequencies" in kws:
                    continue
                s0 = canon.snap(obj)
            elif act == "missing":
                f2 = ctx.path("nothere.uvh5")
            else:
                args["freq_chans"] = None
                args.pop("frequencies", None)
                args.pop("polarizations", None)
                args.pop("ant_str", None)
                bad = gen.pick(rng, ["times", "pol", "chan", "ants"])
                if bad == "times":
                    for k in ("times", "time_range", "lsts", "lst_range"):
                        args.pop(k, None)
                    args["times"] = [2400000.5]
                elif bad == "pol":
                    args.pop("bls", None)
                    args["polarizations"] = [int(p) for p in (-1, -5, 1) if p not in uv.polarization_array][:1]
                elif bad == "chan":
                    args["frequencies"] = [1.0]
                else:
                    args.pop("antenna_names", None)
                    args["antenna_nums"] = [98765]
                exc = (ValueError, AssertionError)
            ctx.raises(exc, lambda: obj.write_uvh5_part(f2, **args), f"partial write with bad {act}")
            ctx.check(_digest(fn) == dig, f"refused partial write ({act}) changed the file")
            ctx.check(not os.path.exists(ctx.path("nothere.uvh5")), "a missing file was created")
            if act == "header":
                d = canon.diff(s0, obj, exact=True)
                ctx.check(not d, lambda: f"refused partial write changed the object: {d[:3]}")
            ctx.ev("refused_" + act)
            log.append((act,))
        _compare(ctx, fn, sh, f"after step {step} {log[-1]}")
    d = canon.diff(keep, src, exact=True)
    ctx.check(not d, lambda: f"partial writes changed the object: {d[:3]}")
    # complete the file block by block, then it must equal the object written at once
    if rng.integers(2):
        for k in range(uv.Nblts) if uv.Nblts < 12 else [slice(None)]:
            b = [k] if not isinstance(k, slice) else np.arange(uv.Nblts)
            src.write_uvh5_part(fn, data_array=uv.data_array[b].astype(store), flag_array=uv.flag_array[b],
                                nsample_array=uv.nsample_array[b], blt_inds=b)
        ctx.ev("complete")
        r1, r2 = UVData(), UVData()
        r1.read(fn)
        uv.history = src.history
        uv.write_uvh5(ctx.path("q.uvh5"), data_write_dtype=dt)
        r2.read(ctx.path("q.uvh5"))
        d = canon.diff(r1, r2, ignore=("filename", "history"), exact=True)
        ctx.check(not d, lambda: f"file written in parts differs from the file written at once: {d[:4]}")
    ctx.case(common.describe_uv(uv), str(dt), log)


def _hist(fn):
    with h5py.File(fn, "r") as f:
        return bytes(f["Header/history"][()]).decode()


SCENARIOS = [Scenario("parts", s_parts, 700, 9000)]
