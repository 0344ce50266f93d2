"""Flag ledgers: every flag, metric and weight keyed by what it belongs to."""
import numpy as np

from vmon import canon

DATA = ("flag_array", "metric_array", "weights_array", "weights_square_array")
TELK = {"telescope." + k for k in canon.TEL_ATTRS} | {"telescope.location"}


def rows(u):
    t = [float(x) for x in np.asarray(u.time_array)]
    if u.type == "baseline":
        return [("b", int(a), int(b), x) for a, b, x in zip(u.ant_1_array, u.ant_2_array, t)]
    if u.type == "antenna":
        return [("a", int(a), x) for a in u.ant_array for x in t]
    return [("w", x) for x in t]


def cols(u):
    return [(int(s), float(f)) for s, f in zip(u.flex_spw_id_array, u.freq_array)]


def pols(u):
    return [p if isinstance(p, str) else int(p) for p in u.polarization_array.tolist()]


def grid(u, name):
    """(rows, cols, pols) array of a data-like attribute."""
    v = getattr(u, name)
    if v is None:
        return None
    if u.type == "antenna":
        v = np.transpose(v, (0, 2, 1, 3))
        return v.reshape(-1, v.shape[2], v.shape[3])
    return v


def led(u):
    out = {}
    r, c, p = rows(u), cols(u), pols(u)
    g = {n: grid(u, n) for n in DATA if getattr(u, n) is not None}
    for n, v in g.items():
        if v.shape != (len(r), len(c), len(p)):
            raise AssertionError(f"{n} has shape {v.shape} for {len(r)} rows, {len(c)} channels, {len(p)} pols")
        for i, rr in enumerate(r):
            for j, cc in enumerate(c):
                for k, pp in enumerate(p):
                    out.setdefault((n, rr, cc, pp), []).append(v[i, j, k].item())
    return out


def leddiff(a, b, tol=0.0):
    """a expected, b observed"""
    if a.keys() != b.keys():
        m = [k for k in a if k not in b]
        x = [k for k in b if k not in a]
        return f"{len(m)} missing e.g. {m[:1]}, {len(x)} unexpected e.g. {x[:1]}"
    for k, v in a.items():
        w = b[k]
        if v == w:
            continue
        if len(v) != len(w) or not all(x == y or abs(x - y) <= tol * max(1.0, abs(x)) for x, y in zip(sorted(v), sorted(w))):
            return f"{k}: {w}, expected {v}"
    return None


def meta(u):
    """per-time and per-channel metadata"""
    d = {("lst", float(t)): float(x) for t, x in zip(u.time_array, u.lst_array)}
    d.update({("width",) + k: float(w) for k, w in zip(cols(u), u.channel_width)})
    d["spws"] = set(int(s) for s in u.spw_array)
    return d


def counts(u):
    bad = []

    def c(name, n):
        if getattr(u, name) != n:
            bad.append(f"{name} is {getattr(u, name)}, not {n}")

    c("Ntimes", len(np.unique(u.time_array)))
    c("Nfreqs", len(u.freq_array))
    c("Npols", len(u.polarization_array))
    c("Nspws", len(u.spw_array))
    if u.type == "baseline":
        c("Nblts", len(u.baseline_array))
        c("Nbls", len(np.unique(u.baseline_array)))
        c("Nants_data", len(np.union1d(u.ant_1_array, u.ant_2_array)))
        a, b = u.baseline_to_antnums(u.baseline_array)
        if not (np.array_equal(a, u.ant_1_array) and np.array_equal(b, u.ant_2_array)):
            bad.append("baseline numbers do not belong to the antenna pairs")
    if u.type == "antenna":
        c("Nants_data", len(u.ant_array))
    if set(np.unique(u.flex_spw_id_array)) != set(u.spw_array):
        bad.append("spw_array and flex_spw_id_array disagree")
    if u.mode == "flag" and (u.flag_array is None or u.metric_array is not None or u.flag_array.dtype != np.bool_):
        bad.append("flag object without (only) flags")
    if u.mode == "metric" and (u.metric_array is None or u.weights_array is None or u.flag_array is not None):
        bad.append("metric object without (only) metrics and weights")
    return bad


def ants(u):
    t = u.telescope
    return {int(n): (str(t.antenna_names[i]), tuple(t.antenna_positions[i]), None if t.antenna_diameters is None else float(t.antenna_diameters[i]))
            for i, n in enumerate(t.antenna_numbers)}


def describe(u):
    return f"{u.type} {u.mode} t{u.Ntimes} f{u.Nfreqs} s{u.Nspws} p{pols(u)} rows{len(rows(u))}"
