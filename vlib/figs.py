"""What a figure shows: artists read back through matplotlib."""
import re

import astropy.units as u
import numpy as np

from .util import fail

TARGETS = [  # physical type of the model, SED target, differential target
    ("erg/(s cm2)", "1/(s cm2 TeV)"), ("erg/s", "1/(s TeV)"), ("erg", "1/TeV"),
    ("erg/cm3", "1/(TeV cm3)")]


def displayed(energy, flux, sed):
    """(values, unit) of a spectrum as shown in plots."""
    e = u.Quantity(energy)
    for s, d in TARGETS:
        for q, is_sed in ((u.Unit(s), True), (u.Unit(d), False)):
            if flux.unit.is_equivalent(q):
                f = flux if is_sed == bool(sed) else (flux * e ** 2 if sed else flux / e ** 2)
                t = u.Unit(s if sed else d)
                return f.to(t).value, t
    raise ValueError(flux.unit)


def close_all():
    import matplotlib.pyplot as plt

    plt.close("all")


def curves(ax):
    """Lines that connect points (not error bars or markers)."""
    return [ln for ln in ax.lines if ln.get_linestyle() not in ("None", "", " ", "none")]


def xy(line):
    return (np.asarray(line.get_xdata(), dtype=float), np.asarray(line.get_ydata(), dtype=float))


def bands(ax):
    from matplotlib.collections import PolyCollection

    out = []
    for c in ax.collections:
        if not isinstance(c, PolyCollection):
            continue
        v = np.concatenate([p.vertices for p in c.get_paths()])
        out.append(v)
    return out


def band_at(v, x, what="band"):
    """Lower and upper edge of a band at each x."""
    lo, hi = [], []
    for xx in x:
        m = np.abs(v[:, 0] - xx) <= 1e-9 * abs(xx)
        if not np.any(m):
            fail("%s has no vertex at %r", what, xx)
        lo.append(v[m, 1].min())
        hi.append(v[m, 1].max())
    return np.array(lo), np.array(hi)


def texts(f):
    out = [t.get_text() for t in f.texts]
    for ax in f.axes:
        out += [t.get_text() for t in ax.texts]
    return [t for t in out if t]


NUM = r"[-+]?(?:\d+\.?\d*(?:[eE][-+]?\d+)?|inf|nan)"


def label_unit(label):
    """Unit in brackets of an axis label."""
    m = re.search(r"\[(.*)\]", label)
    if not m:
        return None
    return m.group(1)


def errorbars(ax):
    """[{x, y, xlo, xhi, ylo, yhi (segment ends or None), uplims, color}] of the containers."""
    out = []
    for c in ax.containers:
        if type(c).__name__ != "ErrorbarContainer":
            continue
        line, caps, bars = c.lines
        segs = [[np.asarray(s) for s in b.get_segments()] for b in bars]
        d = {"xerr": None, "yerr": None, "caps": caps, "line": line, "color": line.get_color()
             if line is not None else None}
        k = 0
        if c.has_xerr:
            d["xerr"] = segs[k]
            k += 1
        if c.has_yerr:
            d["yerr"] = segs[k]
        x, y = xy(line)
        d["x"], d["y"] = x, y
        out.append(d)
    return out
