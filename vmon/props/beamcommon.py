"""Independent observation of beams."""
import numpy as np

FREQ = {"freq_array": 0, "bandpass_array": 0, "receiver_temperature_array": 0, "loss_array": 0, "mismatch_array": 0, "s_parameters": 1, "coupling_matrix": 4, "data_array": 2}


def take(s, *, fi=None, a1=None, a2=None, px=None, pi=None):
    """Index a snapshot dict along frequency / axis1 / axis2 / pixel / feed-or-pol (our own selection)."""
    s = dict(s)
    power = s["beam_type"] == "power"
    if fi is not None:
        for k, ax in FREQ.items():
            if s.get(k) is not None:
                s[k] = np.take(s[k], fi, axis=ax)
        s["Nfreqs"] = len(fi)
    for ind, ax, name, n in ((a1, -1, "axis1_array", "Naxes1"), (a2, -2, "axis2_array", "Naxes2"), (px, -1, "pixel_array", "Npixels")):
        if ind is None:
            continue
        s[name] = s[name][ind]
        s["data_array"] = np.take(s["data_array"], ind, axis=ax)
        if s["basis_vector_array"] is not None:
            s["basis_vector_array"] = np.take(s["basis_vector_array"], ind, axis=ax)
        s[n] = len(ind)
    if pi is not None:
        s["data_array"] = np.take(s["data_array"], pi, axis=1)
        if power:
            s["polarization_array"] = s["polarization_array"][pi]
            s["Npols"] = len(pi)
            if not np.isin(s["polarization_array"], [-3, -4, -7, -8]).any():
                s["data_array"] = s["data_array"].real
        else:
            s["feed_array"] = s["feed_array"][pi]
            s["Nfeeds"] = len(pi)
            if s["coupling_matrix"] is not None:
                s["coupling_matrix"] = np.take(np.take(s["coupling_matrix"], pi, axis=2), pi, axis=3)
    return s


def describe(b):
    lab = b.polarization_array if b.beam_type == "power" else b.feed_array
    n = (b.nside, b.ordering, b.Npixels) if b.pixel_coordinate_system == "healpix" else (b.Naxes2, b.Naxes1)
    return f"{b.beam_type} {b.antenna_type} {b.pixel_coordinate_system} {n} f={b.freq_array} {list(lab)} vec={b.Naxes_vec} x={b.x_orientation} {np.ravel(b.data_array)[:2]}"


def table(b):
    """(vector, feed/pol, frequency, pixel coordinates) -> value, as nested arrays sorted by their labels"""
    lab = b.polarization_array if b.beam_type == "power" else b.feed_array
    fo, po = np.argsort(b.freq_array, kind="stable"), np.argsort(lab, kind="stable")
    d = b.data_array[:, po][:, :, fo]
    bv = b.basis_vector_array
    if b.pixel_coordinate_system == "healpix":
        o = np.argsort(b.pixel_array, kind="stable")
        d = d[..., o]
        bv = None if bv is None else bv[..., o]
        coords = (b.pixel_array[o],)
    else:
        o1, o2 = np.argsort(b.axis1_array, kind="stable"), np.argsort(b.axis2_array, kind="stable")
        d = d[..., o2, :][..., o1]
        bv = None if bv is None else bv[..., o2, :][..., o1]
        coords = (b.axis2_array[o2], b.axis1_array[o1])
    out = {"data": d, "labels": np.asarray(lab)[po], "freqs": b.freq_array[fo], "bv": bv}
    for i, c in enumerate(coords):
        out[f"coord{i}"] = c
    for k, ax in FREQ.items():
        if k in ("freq_array", "data_array") or getattr(b, k) is None:
            continue
        v = np.take(getattr(b, k), fo, axis=ax)
        if k == "coupling_matrix":
            v = v[:, :, po][:, :, :, po]
        out[k] = v
    return out
