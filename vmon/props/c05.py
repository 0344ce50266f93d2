"""C05 Selecting while reading equals reading everything and then selecting."""
import numpy as np

from pyuvdata import UVData
from vmon import canon, gen
from vmon.core import Scenario, Skip
from vmon.props import common
from vmon.props.c02 import fits_uv
from vmon.props.c03 import mir_uv

RULE = (
    "random files (uvh5 incl. integer storage, uvfits, miriad, ms) and random combinations of "
    "every select keyword; the selective read is compared with our own row/channel/pol filter of "
    "the full read; non-trivial = distinct (file, selection) where the selection removed something"
)
REQUIRED = ["uvh5", "uvfits", "miriad", "ms", "multifile", "sel_freq_chans", "sel_times", "sel_time_range",
            "sel_antenna_nums", "sel_bls", "sel_polarizations", "sel_blt_inds", "sel_lst_range",
            "sel_frequencies", "sel_ant_str", "sel_antenna_names", "sel_phase_center_ids",
            "sel_catalog_names", "sel_lsts", "metadata_read", "refused_clash", "refused_absent", "refused_uvh5", "refused_uvfits", "refused_miriad"]

BLT_KEYS = ["antenna_nums", "antenna_names", "bls", "ant_str", "times", "time_range", "lsts",
            "lst_range", "blt_inds", "phase_center_ids", "catalog_names"]


def random_select(ctx, uv, keys=None, nkeys=None):
    """keywords, and the rows / channels / pols our own filter keeps."""
    rng = ctx.rng
    keys = list(keys or (BLT_KEYS + ["frequencies", "freq_chans", "polarizations", "freq_chans", "polarizations"]))
    nkeys = int(gen.pick(rng, [1, 1, 2, 2, 3])) if nkeys is None else nkeys
    kw = {}
    rows = np.ones(uv.Nblts, bool)
    chans = np.ones(uv.Nfreqs, bool)
    pols = np.ones(uv.Npols, bool)
    a1, a2 = uv.ant_1_array, uv.ant_2_array
    names = np.array(uv.telescope.antenna_names)
    nums = np.asarray(uv.telescope.antenna_numbers)
    num2name = dict(zip(nums.tolist(), names.tolist()))
    for k in rng.permutation(keys)[:]:
        if len(kw) >= nkeys:
            break
        k = str(k)
        if k in kw:
            continue
        if k in ("antenna_nums", "antenna_names", "bls", "ant_str") and set(kw) & {"antenna_nums", "antenna_names", "bls", "ant_str"}:
            continue
        if k in ("times", "time_range", "lsts", "lst_range") and set(kw) & {"times", "time_range", "lsts", "lst_range"}:
            continue
        if k in ("phase_center_ids", "catalog_names") and set(kw) & {"phase_center_ids", "catalog_names"}:
            continue
        if k in ("frequencies", "freq_chans") and set(kw) & {"frequencies", "freq_chans"}:
            continue
        if {k, *kw} >= {"bls", "polarizations"} or {k, *kw} >= {"ant_str", "polarizations"}:
            continue
        if k in ("antenna_nums", "antenna_names"):
            present = np.unique(np.concatenate([a1, a2]))
            n = int(rng.integers(1, len(present) + 1))
            sel = rng.choice(present, n, replace=False)
            m = np.isin(a1, sel) & np.isin(a2, sel)
            if not (m & rows).any():
                continue
            kw[k] = [int(v) for v in sel] if k == "antenna_nums" else [num2name[int(v)] for v in sel]
        elif k == "bls":
            pairs = sorted(set(zip(a1.tolist(), a2.tolist())))
            n = int(rng.integers(1, len(pairs) + 1))
            sel = [pairs[i] for i in rng.choice(len(pairs), n, replace=False)]
            selset = set(sel) | {p[::-1] for p in sel}
            m = np.array([(x, y) in selset for x, y in zip(a1.tolist(), a2.tolist())])
            if not (m & rows).any():
                continue
            kw[k] = [p[::-1] if rng.integers(2) else p for p in sel]
            if len(sel) == 1 and rng.integers(2):
                kw[k] = kw[k][0]
        elif k == "ant_str":
            c = gen.pick(rng, ["auto", "cross", "all"])
            m = {"auto": a1 == a2, "cross": a1 != a2, "all": np.ones(len(a1), bool)}[c]
            if not (m & rows).any():
                continue
            kw[k] = c
        elif k in ("times", "time_range"):
            ut = np.unique(uv.time_array)
            if k == "times":
                sel = rng.choice(ut, int(rng.integers(1, len(ut) + 1)), replace=False)
                m = np.isin(uv.time_array, sel)
                val = list(sel)
            else:
                i, j = np.sort(rng.integers(0, len(ut), 2))
                lo, hi = ut[i] - 2e-6, ut[j] + 2e-6
                m = (uv.time_array >= lo) & (uv.time_array <= hi)
                val = [lo, hi]
            if not (m & rows).any():
                continue
            kw[k] = val
        elif k in ("lsts", "lst_range"):
            ul = np.unique(uv.lst_array)
            if k == "lsts":
                sel = rng.choice(ul, int(rng.integers(1, len(ul) + 1)), replace=False)
                m = np.isin(uv.lst_array, sel)
                val = list(sel)
            elif rng.integers(2):
                i, j = np.sort(rng.integers(0, len(ul), 2))
                lo, hi = max(ul[i] - 1e-5, 0), ul[j] + 1e-5
                if hi > 2 * np.pi:
                    continue
                m = (uv.lst_array >= lo) & (uv.lst_array <= hi)
                val = [lo, hi]
            else:
                # window that wraps through zero
                hi = float(ul[int(rng.integers(len(ul)))]) + 1e-5
                if hi > 6.28:
                    continue
                lo = float(rng.uniform(hi + 1e-4, 2 * np.pi - 1e-4))
                if lo >= 2 * np.pi or np.any(np.abs(uv.lst_array - lo) < 1e-6):
                    continue
                m = (uv.lst_array >= lo) | (uv.lst_array <= hi)
                val = [lo, hi]
            if not (m & rows).any():
                continue
            kw[k] = val
        elif k == "blt_inds":
            n = int(rng.integers(1, uv.Nblts + 1))
            if rng.integers(3) == 0:
                st = int(rng.integers(1, 4))
                sel = np.arange(int(rng.integers(0, uv.Nblts)), uv.Nblts, st)
            else:
                sel = np.sort(rng.choice(uv.Nblts, n, replace=False))
            m = np.zeros(uv.Nblts, bool)
            m[sel] = True
            if not (m & rows).any():
                continue
            kw[k] = [int(v) for v in sel] if rng.integers(2) else sel
        elif k in ("phase_center_ids", "catalog_names"):
            ids = np.unique(uv.phase_center_id_array)
            sel = rng.choice(ids, int(rng.integers(1, len(ids) + 1)), replace=False)
            cn = [uv.phase_center_catalog[int(i)]["cat_name"] for i in sel]
            if k == "catalog_names":
                sel = [i for i, c in uv.phase_center_catalog.items() if c["cat_name"] in cn]
            m = np.isin(uv.phase_center_id_array, sel)
            if not (m & rows).any():
                continue
            kw[k] = cn if k == "catalog_names" else [int(i) for i in sel]
        elif k in ("frequencies", "freq_chans"):
            n = int(rng.integers(1, uv.Nfreqs + 1))
            sel = rng.choice(uv.Nfreqs, n, replace=False)
            if rng.integers(2):
                sel = np.sort(sel)
            m2 = np.zeros(uv.Nfreqs, bool)
            m2[sel] = True
            chans &= m2
            kw[k] = [float(uv.freq_array[i]) for i in sel] if k == "frequencies" else [int(i) for i in sel]
            ctx.ev("sel_" + k)
            continue
        elif k == "polarizations":
            n = int(rng.integers(1, uv.Npols + 1))
            sel = rng.choice(uv.Npols, n, replace=False)
            m2 = np.zeros(uv.Npols, bool)
            m2[sel] = True
            pols &= m2
            kw[k] = [int(uv.polarization_array[i]) for i in sel]
            ctx.ev("sel_" + k)
            continue
        rows &= m
        ctx.ev("sel_" + k)
    return kw, rows, chans, pols


ROWS = ["ant_1_array", "ant_2_array", "baseline_array", "time_array", "lst_array", "uvw_array",
        "integration_time", "phase_center_app_ra", "phase_center_app_dec", "phase_center_frame_pa",
        "phase_center_id_array"]


def expected_subset(uv, rows, chans, pols):
    """Our own filter of a full object."""
    d = {}
    for a in ROWS:
        d[a] = getattr(uv, a)[rows].copy()
    if uv.scan_number_array is not None:
        d["scan_number_array"] = uv.scan_number_array[rows].copy()
    for a in ("freq_array", "channel_width", "flex_spw_id_array"):
        d[a] = getattr(uv, a)[chans].copy()
    if uv.eq_coeffs is not None:
        d["eq_coeffs"] = uv.eq_coeffs[:, chans]
    d["polarization_array"] = uv.polarization_array[pols].copy()
    ix = np.ix_(rows, chans, pols)
    for a in ("data_array", "flag_array", "nsample_array"):
        v = getattr(uv, a)
        d[a] = None if v is None else v[ix].copy()
    d["Nblts"], d["Nfreqs"], d["Npols"] = int(rows.sum()), int(chans.sum()), int(pols.sum())
    d["Ntimes"] = len(np.unique(d["time_array"]))
    d["Nbls"] = len(set(zip(d["ant_1_array"].tolist(), d["ant_2_array"].tolist())))
    d["Nspws"] = len(np.unique(d["flex_spw_id_array"]))
    d["Nants_data"] = len(set(d["ant_1_array"].tolist()) | set(d["ant_2_array"].tolist()))
    d["vis_units"] = uv.vis_units
    d["pol_convention"] = uv.pol_convention
    d["extra_keywords"] = uv.extra_keywords
    return d


def check_subset(ctx, exp, got, what, tols=None, pc_ids=True):
    sn = canon.snap(got, deep=False)
    t = {k: 0.0 for k in ROWS}
    t.update(tols or {})
    d = []
    for k in exp:
        if k == "phase_center_id_array" and not pc_ids:
            continue
        r = canon.valdiff(exp[k], sn[k], t.get(k, 0.0), 0.0, k in canon.ANGLES, k)
        if r:
            d.append(r)
    ctx.check(not d, lambda: f"{what}: {d[:5]}")
    ctx.check(sorted(np.asarray(got.spw_array).tolist()) == sorted(set(exp["flex_spw_id_array"].tolist())),
              f"{what}: spw_array {got.spw_array} for windows {set(exp['flex_spw_id_array'].tolist())}")
    common.sane(ctx, got, what, claims=True)


def _make(ctx, fmt):
    rng = ctx.rng
    if fmt == "uvh5":
        uv = gen.make_uvdata(rng, nbl=int(rng.integers(2, 12)), ntimes=int(rng.integers(1, 6)))
        common.random_ops(ctx, uv, n=int(rng.integers(0, 2)))
        fn = ctx.path("a.uvh5")
        opt = {}
        if rng.integers(3) == 0:
            uv.data_array = (np.round(uv.data_array.real) + 1j * np.round(uv.data_array.imag)).astype(uv.data_array.dtype)
            opt["data_write_dtype"] = np.dtype([("r", "<i4"), ("i", "<i4")])
        if rng.integers(3) == 0:
            opt["chunks"] = tuple(int(rng.integers(1, n + 1)) for n in uv.data_array.shape)
        uv.write_uvh5(fn, **opt)
    elif fmt == "uvfits":
        uv = fits_uv(ctx, nbl=int(rng.integers(2, 12)))
        fn = ctx.path("a.uvfits")
        uv.write_uvfits(fn)
    elif fmt == "miriad":
        uv = mir_uv(ctx, nbl=int(rng.integers(2, 12)))
        fn = ctx.path("a.uv")
        uv.write_miriad(fn)
    else:
        uv = gen.make_uvdata(rng, kinds=["sidereal"], even_freq=True, chans=4,
                             pols=gen.make_pols(rng, kind="lin"))
        fn = ctx.path("a.ms")
        uv.write_ms(fn)
    return fn


def _one(fmt):
    def s(ctx):
        rng = ctx.rng
        fn = _make(ctx, fmt)
        full = UVData.from_file(fn)
        keys = None
        if fmt == "miriad":
            keys = ["antenna_nums", "bls", "ant_str", "time_range", "polarizations", "polarizations",
                    "antenna_names", "times", "freq_chans", "frequencies", "lsts", "lst_range",
                    "catalog_names", "blt_inds"]  # (ids are numbered on read)
            if rng.integers(6):
                keys.remove("blt_inds")
            else:
                # documented: indices count the records left by the other keywords
                keys = ["blt_inds", "freq_chans", "frequencies"]
        kw, rows, chans, pols = random_select(ctx, full, keys)
        if not kw or not rows.any():
            raise Skip("empty selection")
        ctx.case(fmt, common.describe_uv(full), {k: str(v)[:60] for k, v in kw.items()})
        keep = bool(rng.integers(4))
        ropt = {} if keep else {"keep_all_metadata": False}
        if fmt == "uvh5" and rng.integers(2):
            ropt["multidim_index"] = bool(rng.integers(2))
        try:
            got = UVData.from_file(fn, **kw, **ropt)
        except ValueError as e:
            # Miriad applies antennas, baselines, time ranges and polarizations while reading and the
            # other keywords to what is left: a value that only the dropped records have is then refused
            pre = set(kw) & {"antenna_nums", "bls", "ant_str", "time_range", "polarizations"}
            gone = [k for k, v in (("times", full.time_array), ("lsts", full.lst_array)) if k in kw
                    and not np.isin(np.ravel(kw[k]), v[rows]).all()]
            if fmt == "miriad" and pre and gone and "is not present in the" in str(e):
                ctx.ev("value_dropped_before")
                return
            raise
        exp = expected_subset(full, rows, chans, pols)
        check_subset(ctx, exp, got, f"{fmt} read with {kw} {ropt}",
                     tols={"lst_array": 1e-9, "phase_center_app_ra": 1e-9, "phase_center_app_dec": 1e-9,
                           "phase_center_frame_pa": 1e-8, "time_array": 1e-9, "uvw_array": 1e-9}, pc_ids=fmt != "miriad")
        want = [full.phase_center_catalog[int(i)]["cat_name"] for i in full.phase_center_id_array[rows]]
        have = [got.phase_center_catalog[int(i)]["cat_name"] for i in got.phase_center_id_array]
        ctx.check(want == have, f"{fmt} read with {kw}: phase centers {have[:5]} for {want[:5]}")
        used = set(exp["ant_1_array"].tolist()) | set(exp["ant_2_array"].tolist())
        have = set(np.asarray(got.telescope.antenna_numbers).tolist())
        if keep:
            ctx.check(have == set(np.asarray(full.telescope.antenna_numbers).tolist()),
                      "keep_all_metadata=True dropped antennas")
        elif fmt == "miriad" or rows.all():
            # antennas are only dropped by a selection on the baseline-time axis
            ctx.check(used <= have, f"antennas {used - have} with data have no metadata")
        else:
            ctx.check(have == used, f"keep_all_metadata=False left antennas {have} for data {used}")
        pos = dict(zip(np.asarray(full.telescope.antenna_numbers).tolist(), full.telescope.antenna_positions))
        nam = dict(zip(np.asarray(full.telescope.antenna_numbers).tolist(), full.telescope.antenna_names))
        for n, p, nm in zip(np.asarray(got.telescope.antenna_numbers).tolist(),
                            got.telescope.antenna_positions, got.telescope.antenna_names):
            ctx.check(np.allclose(p, pos[n], atol=1e-6) and nm == nam[n],
                      f"antenna {n} got the position or name of another one")
        common.hist_kept(ctx, full.history.split("Read/written")[0].strip()[:40], got.history, fmt)
        ctx.ev(fmt)
    s.__name__ = "s_" + fmt
    return s


def s_multifile(ctx):
    """Reading a list of files equals reading each and combining; with selection too."""
    rng = ctx.rng
    uv = gen.make_uvdata(rng, nspw=1, ntimes=int(rng.integers(2, 5)), nbl=int(rng.integers(2, 6)),
                         layout=gen.pick(rng, ["time", "bl"]), nphase=1, orient=True, chans=4)
    axis = gen.pick(rng, ["time", "bl", "freq", "pol"])
    n = {"time": uv.Ntimes, "bl": uv.Nbls, "freq": uv.Nfreqs, "pol": uv.Npols}[axis]
    if n < 2:
        raise Skip("nothing to split")
    cut = int(rng.integers(1, n))
    parts = []
    if axis == "time":
        t = np.unique(uv.time_array)
        sel = [dict(times=t[:cut]), dict(times=t[cut:])]
    elif axis == "bl":
        p = sorted(set(zip(uv.ant_1_array.tolist(), uv.ant_2_array.tolist())))
        sel = [dict(bls=p[:cut]), dict(bls=p[cut:])]
    elif axis == "freq":
        sel = [dict(freq_chans=np.arange(cut)), dict(freq_chans=np.arange(cut, n))]
    else:
        pp = [int(v) for v in uv.polarization_array]
        sel = [dict(polarizations=pp[:cut]), dict(polarizations=pp[cut:])]
    files = []
    for i, s in enumerate(sel):
        fn = ctx.path(f"p{i}.uvh5")
        uv.select(inplace=False, **s).write_uvh5(fn)
        files.append(fn)
    if rng.integers(2):
        files = files[::-1]
    ctx.case("multi", axis, cut, common.describe_uv(uv))
    opt = {}
    mode = gen.pick(rng, ["add", "axis"])
    if mode == "axis":
        opt["axis"] = {"time": "blt", "bl": "blt", "freq": "freq", "pol": "polarization"}[axis]
    got = UVData.from_file(files, **opt)
    d = canon.dictdiff(canon.ledger(uv), canon.ledger(got), exact=True,
                       tols={"telescope.location": 1e-6})
    ctx.check(not d, lambda: f"multi-file read along {axis} ({mode}): {d[:5]}")
    common.sane(ctx, got, "multi-file read", claims=True)
    ctx.ev("multifile")


def s_refused(ctx):
    """Criteria which a selection on the full object refuses are refused while reading (Miriad: only the
    contradictory antenna criteria), and reading only the metadata gives the metadata of the full read."""
    rng = ctx.rng
    fmt = gen.pick(rng, ["uvh5", "uvfits", "miriad"])
    fn = _make(ctx, fmt)
    full = UVData.from_file(fn)
    if rng.integers(4) == 0 and fmt != "miriad":
        ctx.case(fmt, "meta", common.describe_uv(full))
        got = UVData.from_file(fn, read_data=False)
        ctx.check(got.metadata_only and got.data_array is None and got.flag_array is None and got.nsample_array is None,
                  "read_data=False loaded data")
        d = canon.dictdiff(_meta(full), _meta(got), tols={"lst_array": 1e-9})
        ctx.check(not d, lambda: f"{fmt} metadata read: {d[:4]}")
        ctx.ev("metadata_read")
        return
    t, l = full.time_array, full.lst_array
    pair = (int(full.ant_1_array[0]), int(full.ant_2_array[0]))
    names = dict(zip(np.asarray(full.telescope.antenna_numbers).tolist(), full.telescope.antenna_names))
    good = {
        "ant_str": gen.pick(rng, ["all", "cross", "auto", f"{pair[0]}_{pair[1]}"]),
        "antenna_nums": list(pair), "antenna_names": [names[pair[0]], names[pair[1]]], "bls": [pair],
        "times": [t[0]], "time_range": [t.min() - 1, t.max() + 1], "lsts": [l[0]], "lst_range": [0, 6.2],
        "freq_chans": [0], "frequencies": [full.freq_array[0]], "polarizations": [int(full.polarization_array[0])],
        "phase_center_ids": [int(full.phase_center_id_array[0])],
        "catalog_names": full.phase_center_catalog[int(full.phase_center_id_array[0])]["cat_name"],
    }
    clash = [("ant_str", "bls"), ("ant_str", "antenna_nums"), ("ant_str", "antenna_names"), ("antenna_nums", "antenna_names"),
             ("times", "time_range"), ("lsts", "lst_range"), ("times", "lsts"), ("times", "lst_range"), ("time_range", "lsts"),
             ("time_range", "lst_range"), ("phase_center_ids", "catalog_names")]
    free = [n for n in range(2000) if n not in set(full.telescope.antenna_numbers.tolist())]
    absent = {
        "antenna_nums": [pair[0], free[int(rng.integers(50))]], "antenna_names": [names[pair[0]], "nosuch"],
        "bls": [pair, (pair[0], free[3])], "times": [t[0], t.max() + 3.3], "time_range": [t.min() - 3, t.min() - 2],
        "lsts": [l[0], np.mod(l[0] + 3.1, 6.28)], "frequencies": [full.freq_array[0], full.freq_array.max() + 7.7e5],
        "polarizations": [int(full.polarization_array[0]), 2 if 2 not in full.polarization_array else -4],
        "catalog_names": ["no such source"], "phase_center_ids": [977],
        "freq_chans": [0, full.Nfreqs + 3], "blt_inds": [0, full.Nblts + 2],
    }
    if fmt == "miriad":
        clash = clash[:2]
    if fmt == "miriad" or rng.integers(2):
        a, b = clash[int(rng.integers(len(clash)))]
        kw, kind = {a: good[a], b: good[b]}, "clash"
    else:
        a = list(absent)[int(rng.integers(len(absent)))]
        kw, kind = {a: absent[a]}, "absent"
        if rng.integers(2):
            b = list(good)[int(rng.integers(len(good)))]
            if b != a and (a, b) not in clash and (b, a) not in clash:
                kw[b] = good[b]
    ctx.case(fmt, kind, common.describe_uv(full), {k: str(v)[:60] for k, v in kw.items()})
    try:
        full.select(inplace=False, **kw)
    except Exception:
        pass
    else:
        raise Skip("the selection is accepted")
    ctx.raises(Exception, lambda: UVData.from_file(fn, **kw), f"{fmt} file read with {kind} criteria {kw}, which select refuses")
    ctx.ev("refused_" + kind)
    ctx.ev("refused_" + fmt)


def _meta(uv):
    out = {}
    for p in uv:
        name = p.lstrip("_")
        if name in ("data_array", "flag_array", "nsample_array", "history", "filename", "telescope"):
            continue
        v = getattr(uv, name)
        if v is not None and name not in ("blts_are_rectangular", "time_axis_faster_than_bls") and not isinstance(v, dict):
            out[name] = v
    return out


SCENARIOS = [
    Scenario("uvh5", _one("uvh5"), 350, 6000),
    Scenario("uvfits", _one("uvfits"), 250, 4000),
    Scenario("miriad", _one("miriad"), 300, 6000),
    Scenario("ms", _one("ms"), 80, 1000),
    Scenario("multifile", s_multifile, 120, 1500),
    Scenario("refused", s_refused, 200, 3000),
]
