"""Shared pieces of the property monitors."""
from __future__ import annotations

import warnings

import numpy as np

from pyuvdata import UVData
from vmon import canon, gen
from vmon.core import Skip  # noqa: F401


def describe_uv(uv):
    return (
        f"blts={uv.Nblts} t={uv.Ntimes} bl={uv.Nbls} f={uv.Nfreqs} spw={uv.Nspws} "
        f"p={[int(p) for p in uv.polarization_array]} ants={uv.Nants_data}/{uv.telescope.Nants}"
        f" max_ant={int(np.max(uv.telescope.antenna_numbers))} "
        f"cat={[c['cat_type'][:5] for c in uv.phase_center_catalog.values()]} "
        f"{getattr(uv.data_array, 'dtype', None)} {uv.vis_units} "
        f"first={np.ravel(uv.data_array)[:1] if uv.data_array is not None else None}"
    )


def sane(ctx, uv, what, claims=True):
    """Structural truth of an object after an operation."""
    p = canon.counts_consistent(uv)
    ctx.check(not p, f"{what}: inconsistent object: {p}")
    p = canon.blt_claims(uv, order=claims)
    ctx.check(not p, f"{what}: {p}")


def quiet(fn, *a, **k):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return fn(*a, **k)


def random_ops(ctx, uv, n=None, allow=("select", "reorder", "conj", "freq", "pol", "phase")):
    """Drive the object through a short random history of in-place operations."""
    rng = ctx.rng
    n = int(rng.integers(0, 4)) if n is None else n
    for _ in range(n):
        op = gen.pick(rng, list(allow))
        if op == "select":
            if uv.Nblts < 3:
                continue
            k = int(rng.integers(1, uv.Nblts + 1))
            inds = np.sort(rng.choice(uv.Nblts, k, replace=False))
            ctx.log("select blt_inds", inds)
            uv.select(blt_inds=inds)
        elif op == "reorder":
            o = gen.pick(rng, ["time", "baseline", "ant1", "ant2", "perm"])
            if o == "perm":
                uv.reorder_blts(order=rng.permutation(uv.Nblts))
            else:
                uv.reorder_blts(order=o)
            ctx.log("reorder_blts", o)
        elif op == "conj":
            c = gen.pick(rng, ["ant1<ant2", "ant2<ant1"])
            pols = set(int(p) for p in uv.polarization_array)
            if uv.flex_spw_polarization_array is not None:
                continue
            if (len(pols & {-7, -8}) == 1) or (len(pols & {-3, -4}) == 1):
                continue
            uv.conjugate_bls(c)
            ctx.log("conjugate_bls", c)
        elif op == "freq":
            uv.reorder_freqs(channel_order=gen.pick(rng, ["freq", "-freq"]))
            ctx.log("reorder_freqs")
        elif op == "pol":
            uv.reorder_pols(order=gen.pick(rng, ["AIPS", "CASA"]))
            ctx.log("reorder_pols")
        elif op == "phase":
            uv.phase(
                lon=float(np.mean(uv.lst_array[:1])) + float(rng.uniform(-0.3, 0.3)),
                lat=float(uv.telescope.location.lat.rad) + float(rng.uniform(-0.2, 0.2)),
                cat_name=f"ph{int(rng.integers(100))}", phase_frame="icrs",
            )
            ctx.log("phase")
        ctx.ev("op_" + op)
    return uv


def hist_kept(ctx, before, after, what):
    ctx.check(
        str(after).startswith(str(before).strip()) or str(before).strip() in str(after),
        f"{what}: history text was lost: {before!r} not in {after!r}",
    )
